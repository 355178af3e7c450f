// ---- weaving bindings into a request (properties C20, C21) -------------------------------------------------------------
pub type Node = C_RequestWeaver_WeaveInfo;
pub struct ErrSink { pub st: Status }
pub uninterp spec fn pb_name(f: int) -> Seq<u8>;
pub uninterp spec fn pb_cardinality(f: int) -> i32;
pub open spec fn is_repeated(f: int) -> bool { pb_cardinality(f) == 3 }
pub open spec fn empty_node() -> Node { C_RequestWeaver_WeaveInfo { messages: Seq::empty(), bindings: Seq::empty() } }
// ---- nodes of a tree, denoted by the child indices from the root
pub open spec fn null_path() -> Seq<int> { seq![-1] }
pub open spec fn tree_ok(t: Node, p: Seq<int>) -> bool decreases p.len() { p.len() == 0 || (0 <= p[0] < t.messages.len() && tree_ok(t.messages[p[0]].1, p.skip(1))) }
pub open spec fn tree_at(t: Node, p: Seq<int>) -> Node decreases p.len() { if p.len() == 0 { t } else { tree_at(t.messages[p[0]].1, p.skip(1)) } }
pub open spec fn set_child(t: Node, i: int, v: Node) -> Node { C_RequestWeaver_WeaveInfo { messages: t.messages.update(i, (t.messages[i].0, v)), ..t } }
pub open spec fn tree_put(t: Node, p: Seq<int>, v: Node) -> Node decreases p.len() { if p.len() == 0 { v } else { set_child(t, p[0], tree_put(t.messages[p[0]].1, p.skip(1), v)) } }
// ---- values
pub open spec fn piece_type(p: Piece) -> i32 {
    match p { Piece::I32(_) => 1, Piece::I64(_) => 2, Piece::U32(_) => 3, Piece::U64(_) => 4, Piece::Double(_) => 5, Piece::Float(_) => 6, Piece::Bool(_) => 7, Piece::Text(_) => 9, Piece::Bytes(_) => 10, Piece::Null => 11 }
}
pub uninterp spec fn conv_i32(p: Piece) -> StatusOr<i32>;
pub uninterp spec fn conv_i64(p: Piece) -> StatusOr<i64>;
pub uninterp spec fn conv_u32(p: Piece) -> StatusOr<u32>;
pub uninterp spec fn conv_u64(p: Piece) -> StatusOr<u64>;
pub uninterp spec fn conv_f64(p: Piece) -> StatusOr<F64>;
pub uninterp spec fn conv_f32(p: Piece) -> StatusOr<F32>;
pub uninterp spec fn conv_bool(p: Piece) -> StatusOr<bool>;
pub uninterp spec fn conv_text(p: Piece) -> StatusOr<Seq<u8>>;
pub uninterp spec fn conv_bytes(p: Piece) -> StatusOr<Seq<u8>>;
pub uninterp spec fn piece_text(p: Piece, d: Seq<u8>) -> Seq<u8>;
// conversion to a type: the value itself where it has that type
pub open spec fn to_i32_(p: Piece) -> StatusOr<i32> { match p { Piece::I32(x) => StatusOr::Ok(x), _ => conv_i32(p) } }
pub open spec fn to_i64_(p: Piece) -> StatusOr<i64> { match p { Piece::I64(x) => StatusOr::Ok(x), _ => conv_i64(p) } }
pub open spec fn to_u32_(p: Piece) -> StatusOr<u32> { match p { Piece::U32(x) => StatusOr::Ok(x), _ => conv_u32(p) } }
pub open spec fn to_u64_(p: Piece) -> StatusOr<u64> { match p { Piece::U64(x) => StatusOr::Ok(x), _ => conv_u64(p) } }
pub open spec fn to_f64_(p: Piece) -> StatusOr<F64> { match p { Piece::Double(x) => StatusOr::Ok(x), _ => conv_f64(p) } }
pub open spec fn to_f32_(p: Piece) -> StatusOr<F32> { match p { Piece::Float(x) => StatusOr::Ok(x), _ => conv_f32(p) } }
pub open spec fn to_bool_(p: Piece) -> StatusOr<bool> { match p { Piece::Bool(x) => StatusOr::Ok(x), _ => conv_bool(p) } }
pub open spec fn to_text_(p: Piece) -> StatusOr<Seq<u8>> { match p { Piece::Text(x) => StatusOr::Ok(x), _ => conv_text(p) } }
pub open spec fn to_bytes_(p: Piece) -> StatusOr<Seq<u8>> { match p { Piece::Bytes(x) => StatusOr::Ok(x), _ => conv_bytes(p) } }
// ---- C21: equal up to a fixed tolerance of 32 * FLT_EPSILON = 2^-18
pub open spec fn tolerance() -> F64 { F64 { bits: 0x3ed0000000000000 } }
pub open spec fn near(a: F64, b: F64) -> bool { f64_eq(a, b) || f64_lt(f64_abs(f64_op(1, a, b)), tolerance()) }
// the binding, converted to the type of the body value, is the body value
pub open spec fn same_value(body: Piece, binding: Piece) -> bool {
    match body {
        Piece::I32(x) => to_i32_(binding) == StatusOr::Ok(x),
        Piece::I64(x) => to_i64_(binding) == StatusOr::Ok(x),
        Piece::U32(x) => to_u32_(binding) == StatusOr::Ok(x),
        Piece::U64(x) => to_u64_(binding) == StatusOr::Ok(x),
        Piece::Double(x) => to_f64_(binding) is Ok && near(to_f64_(binding)->Ok_0, x),
        Piece::Float(x) => to_f32_(binding) is Ok && near(to_f64(to_f32_(binding)->Ok_0), to_f64(x)),
        Piece::Bool(x) => to_bool_(binding) == StatusOr::Ok(x),
        Piece::Text(x) => to_text_(binding) == StatusOr::Ok(x),
        Piece::Bytes(x) => to_bytes_(binding) == StatusOr::Ok(x),
        Piece::Null => true,
    }
}
// ---- C20: the tree of bindings
pub open spec fn find_msg(ms: Seq<(int, Node)>, name: Seq<u8>, i: int) -> int decreases ms.len() - i {
    if i < 0 || i >= ms.len() { -1 } else if name == pb_name(ms[i].0) { i } else { find_msg(ms, name, i + 1) }
}
pub open spec fn child_ref(i: int) -> Seq<int> { if i < 0 { null_path() } else { seq![i] } }
pub proof fn lemma_ref() ensures forall|i: int| ((#[trigger] child_ref(i)) =~= null_path()) == (i < 0), forall|i: int| (#[trigger] child_ref(i)).len() == 1,
        forall|p: Seq<int>, i: int| i >= 0 ==> #[trigger] (p + child_ref(i)) == p.push(i),
{
    assert forall|p: Seq<int>, i: int| i >= 0 implies #[trigger] (p + child_ref(i)) == p.push(i) by { assert(p + child_ref(i) =~= p.push(i)); }
    assert forall|i: int| ((#[trigger] child_ref(i)) =~= null_path()) == (i < 0) by { if i >= 0 { assert(child_ref(i)[0] == i); assert(null_path()[0] == -1); } }
}
pub open spec fn msg_index(ms: Seq<(int, Node)>, name: Seq<u8>) -> int { let i = find_msg(ms, name, 0); if i < 0 { ms.len() as int } else { i } }
pub open spec fn with_msg(ms: Seq<(int, Node)>, f: int) -> Seq<(int, Node)> { if find_msg(ms, pb_name(f), 0) < 0 { ms.push((f, empty_node())) } else { ms } }
pub open spec fn tree_bind(t: Node, p: Seq<int>, v: Seq<u8>) -> Node decreases p.len() {
    if p.len() == 0 { t } else if p.len() == 1 { C_RequestWeaver_WeaveInfo { bindings: t.bindings.push((p[0], v)), ..t } }
    else {
        let k = msg_index(t.messages, pb_name(p[0]));
        let u = C_RequestWeaver_WeaveInfo { messages: with_msg(t.messages, p[0]), ..t };
        set_child(u, k, tree_bind(u.messages[k].1, p.skip(1), v))
    }
}
pub open spec fn bound(bs: Seq<C_RequestWeaver_BindingInfo>) -> Node decreases bs.len() {
    if bs.len() == 0 { empty_node() } else { tree_bind(bound(bs.drop_last()), bs.last().field_path, bs.last().value) }
}
pub open spec fn path_wf(p: Seq<int>) -> bool { forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] != 0 }
pub open spec fn binds_wf(bs: Seq<C_RequestWeaver_BindingInfo>) -> bool { forall|i: int| 0 <= i < bs.len() ==> path_wf(#[trigger] bs[i].field_path) }
// fields are given, and no two submessages have one name
pub open spec fn distinct_msgs(ms: Seq<(int, Node)>) -> bool { forall|i: int, j: int| 0 <= i < j < ms.len() ==> pb_name(#[trigger] ms[i].0) != pb_name(#[trigger] ms[j].0) }
pub open spec fn tree_wf(t: Node) -> bool decreases t {
    &&& forall|i: int| 0 <= i < t.bindings.len() ==> (#[trigger] t.bindings[i]).0 != 0
    &&& distinct_msgs(t.messages)
    &&& forall|i: int| 0 <= i < t.messages.len() ==> (#[trigger] t.messages[i]).0 != 0 && tree_wf(t.messages[i].1)
}
pub open spec fn bound_events(bs: Seq<(int, Seq<u8>)>) -> Seq<Evt> { Seq::new(bs.len(), |i: int| Evt::Value(pb_name(bs[i].0), Piece::Text(bs[i].1))) }
pub open spec fn is_empty(t: Node) -> bool { t.bindings.len() == 0 && t.messages.len() == 0 }
// what is written for a node whose object closes: its bindings, then an object for every submessage that is left
pub open spec fn weave(t: Node) -> Seq<Evt> decreases t, t.messages.len() + 1 { bound_events(t.bindings) + weave_upto(t, t.messages.len() as int) }
pub open spec fn weave_upto(t: Node, n: int) -> Seq<Evt> decreases t, n {
    if n <= 0 || n > t.messages.len() { Seq::empty() }
    else {
        let c = t.messages[n - 1].1;
        weave_upto(t, n - 1) + (if is_empty(c) { Seq::empty() } else { seq![Evt::StartObject(pb_name(t.messages[n - 1].0))] + weave(c) + seq![Evt::EndObject] })
    }
}
// ---- C21: a body value called name
pub open spec fn kept(bs: Seq<(int, Seq<u8>)>, name: Seq<u8>) -> Seq<(int, Seq<u8>)> decreases bs.len() {
    if bs.len() == 0 { bs } else if name == pb_name(bs[0].0) { kept(bs.skip(1), name) } else { seq![bs[0]] + kept(bs.skip(1), name) }
}
pub open spec fn bound_repeated(bs: Seq<(int, Seq<u8>)>, name: Seq<u8>) -> Seq<Evt> decreases bs.len() {
    if bs.len() == 0 { Seq::empty() } else { (if name == pb_name(bs[0].0) && is_repeated(bs[0].0) { seq![Evt::Value(name, Piece::Text(bs[0].1))] } else { Seq::empty() }) + bound_repeated(bs.skip(1), name) }
}
pub open spec fn clash(bs: Seq<(int, Seq<u8>)>, name: Seq<u8>, body: Piece) -> bool decreases bs.len() {
    bs.len() > 0 && ((name == pb_name(bs[0].0) && !is_repeated(bs[0].0) && !same_value(body, Piece::Text(bs[0].1))) || clash(bs.skip(1), name, body))
}
pub struct WS { pub root: Node, pub cur: Seq<Seq<int>>, pub nad: int, pub w: Writer, pub err: Status }
pub open spec fn top(s: WS) -> Node { tree_at(s.root, s.cur.last()) }
pub open spec fn cc_root(s: WS, name: Seq<u8>) -> Node { if s.cur.len() == 0 { s.root } else { tree_put(s.root, s.cur.last(), C_RequestWeaver_WeaveInfo { bindings: kept(top(s).bindings, name), ..top(s) }) } }
pub open spec fn cc_events(s: WS, name: Seq<u8>) -> Seq<Evt> { if s.cur.len() == 0 { Seq::empty() } else { bound_repeated(top(s).bindings, name) } }
pub open spec fn cc_err(s: WS, report: bool, name: Seq<u8>, body: Piece, st: Status) -> bool { if s.cur.len() > 0 && report && clash(top(s).bindings, name, body) { st.code == 3 } else { st == s.err } }
pub open spec fn on_path(root: Node, cur: Seq<Seq<int>>) -> bool {
    forall|k: int| 0 <= k < cur.len() ==> (#[trigger] cur[k]).len() == k && tree_ok(root, cur[k]) && (k > 0 ==> cur[k].drop_last() == cur[k - 1])
}
pub open spec fn ws_ok(s: WS) -> bool { 0 <= s.nad && tree_wf(s.root) && on_path(s.root, s.cur) }
// ---- one event
pub open spec fn body_piece(p: Piece) -> Piece { match p { Piece::Bytes(x) => Piece::Text(x), _ => p } }
pub open spec fn w_checked(s: WS, e: Evt) -> bool { s.nad == 0 && e is Value && !(e->Value_1 is Null) }
pub open spec fn w_events(s: WS, e: Evt) -> Seq<Evt> {
    (if e is EndObject && s.nad == 0 { weave(top(s)) } else if w_checked(s, e) { cc_events(s, e->Value_0) } else { Seq::empty() }) + seq![e]
}
pub open spec fn w_root(s: WS, e: Evt) -> Node { if e is EndObject && s.nad == 0 { tree_put(s.root, s.cur.last(), empty_node()) } else if w_checked(s, e) { cc_root(s, e->Value_0) } else { s.root } }
pub open spec fn w_enters(s: WS, e: Evt) -> bool { e is StartObject && (s.cur.len() == 0 || (s.nad == 0 && find_msg(top(s).messages, e->StartObject_0, 0) >= 0)) }
pub open spec fn w_cur(s: WS, e: Evt) -> Seq<Seq<int>> {
    if w_enters(s, e) { s.cur.push(if s.cur.len() == 0 { Seq::empty() } else { s.cur.last().push(find_msg(top(s).messages, e->StartObject_0, 0)) }) }
    else if e is EndObject && s.nad == 0 { s.cur.drop_last() } else { s.cur }
}
pub open spec fn w_nad(s: WS, e: Evt) -> int {
    if opens_level(e) && !w_enters(s, e) { s.nad + 1 } else if closes_level(e) && s.nad > 0 { s.nad - 1 } else { s.nad }
}
pub open spec fn w_err(s: WS, report: bool, e: Evt, st: Status) -> bool { if w_checked(s, e) { cc_err(s, report, e->Value_0, body_piece(e->Value_1), st) } else { st == s.err } }
// ---- lemmas for the functions
pub proof fn lemma_get_put(t: Node, p: Seq<int>, v: Node)
    requires tree_ok(t, p)
    ensures tree_at(tree_put(t, p, v), p) == v, tree_ok(tree_put(t, p, v), p)
    decreases p.len()
{ if p.len() > 0 { lemma_get_put(t.messages[p[0]].1, p.skip(1), v); } }
pub proof fn lemma_put_put(t: Node, p: Seq<int>, a: Node, b: Node)
    requires tree_ok(t, p)
    ensures tree_put(tree_put(t, p, a), p, b) == tree_put(t, p, b)
    decreases p.len()
{
    if p.len() > 0 {
        let c = t.messages[p[0]].1;
        lemma_put_put(c, p.skip(1), a, b);
        assert(tree_put(tree_put(t, p, a), p, b).messages =~= tree_put(t, p, b).messages);
    }
}
pub proof fn lemma_put_same(t: Node, p: Seq<int>)
    requires tree_ok(t, p)
    ensures tree_put(t, p, tree_at(t, p)) == t
    decreases p.len()
{ if p.len() > 0 { lemma_put_same(t.messages[p[0]].1, p.skip(1)); assert(tree_put(t, p, tree_at(t, p)).messages =~= t.messages); } }
pub proof fn lemma_child(t: Node, p: Seq<int>, i: int)
    requires tree_ok(t, p)
    ensures tree_ok(t, p.push(i)) == (0 <= i < tree_at(t, p).messages.len()), tree_ok(t, p.push(i)) ==> tree_at(t, p.push(i)) == tree_at(t, p).messages[i].1
    decreases p.len()
{
    let q = p.push(i);
    if p.len() > 0 { assert(q.skip(1) =~= p.skip(1).push(i)); assert(q[0] == p[0]); lemma_child(t.messages[p[0]].1, p.skip(1), i); }
    else {
        assert(q.skip(1).len() == 0);
        if 0 <= i < t.messages.len() { assert(tree_ok(t.messages[i].1, q.skip(1))); assert(tree_at(t.messages[i].1, q.skip(1)) == t.messages[i].1); }
    }
}
pub proof fn lemma_put_child(t: Node, p: Seq<int>, i: int, v: Node)
    requires tree_ok(t, p), 0 <= i < tree_at(t, p).messages.len()
    ensures tree_put(t, p.push(i), v) == tree_put(t, p, set_child(tree_at(t, p), i, v))
    decreases p.len()
{
    let q = p.push(i);
    if p.len() > 0 { assert(q.skip(1) =~= p.skip(1).push(i)); lemma_put_child(t.messages[p[0]].1, p.skip(1), i, v); }
    else { assert(tree_put(t.messages[i].1, q.skip(1), v) == v); }
}
pub proof fn lemma_wf_at(t: Node, p: Seq<int>)
    requires tree_ok(t, p), tree_wf(t)
    ensures tree_wf(tree_at(t, p))
    decreases p.len()
{ if p.len() > 0 { assert(tree_wf(t.messages[p[0]].1)); lemma_wf_at(t.messages[p[0]].1, p.skip(1)); } }
pub proof fn lemma_tree()
    ensures
        forall|t: Node, p: Seq<int>, v: Node| tree_ok(t, p) ==> tree_at(#[trigger] tree_put(t, p, v), p) == v && tree_ok(tree_put(t, p, v), p),
        forall|t: Node, p: Seq<int>, a: Node, b: Node| tree_ok(t, p) ==> #[trigger] tree_put(tree_put(t, p, a), p, b) == tree_put(t, p, b),
        forall|t: Node, p: Seq<int>| tree_ok(t, p) && tree_wf(t) ==> tree_wf(#[trigger] tree_at(t, p)),
        forall|t: Node, p: Seq<int>| tree_ok(t, p) ==> #[trigger] tree_put(t, p, tree_at(t, p)) == t,
{
    assert forall|t: Node, p: Seq<int>, v: Node| tree_ok(t, p) implies tree_at(#[trigger] tree_put(t, p, v), p) == v && tree_ok(tree_put(t, p, v), p) by { lemma_get_put(t, p, v); }
    assert forall|t: Node, p: Seq<int>, a: Node, b: Node| tree_ok(t, p) implies #[trigger] tree_put(tree_put(t, p, a), p, b) == tree_put(t, p, b) by { lemma_put_put(t, p, a, b); }
    assert forall|t: Node, p: Seq<int>| tree_ok(t, p) && tree_wf(t) implies tree_wf(#[trigger] tree_at(t, p)) by { lemma_wf_at(t, p); }
    assert forall|t: Node, p: Seq<int>| tree_ok(t, p) implies #[trigger] tree_put(t, p, tree_at(t, p)) == t by { lemma_put_same(t, p); }
}
pub proof fn lemma_find(ms: Seq<(int, Node)>, name: Seq<u8>, i: int)
    requires 0 <= i
    ensures find_msg(ms, name, i) == -1 || (i <= find_msg(ms, name, i) < ms.len() && pb_name(ms[find_msg(ms, name, i)].0) == name),
        forall|k: int| i <= k < ms.len() && (find_msg(ms, name, i) < 0 || k < find_msg(ms, name, i)) ==> pb_name(#[trigger] ms[k].0) != name
    decreases ms.len() - i
{ if i < ms.len() && name != pb_name(ms[i].0) { lemma_find(ms, name, i + 1); } }
pub open spec fn msgs_ok(ms: Seq<(int, Node)>) -> bool { forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).0 != 0 }
pub proof fn lemma_wf_put(t: Node, p: Seq<int>, v: Node)
    requires tree_ok(t, p), tree_wf(t), tree_wf(v)
    ensures tree_wf(tree_put(t, p, v))
    decreases p.len()
{
    if p.len() > 0 {
        let k = p[0]; let c = t.messages[k].1; let r = tree_put(t, p, v);
        assert(tree_wf(c));
        lemma_wf_put(c, p.skip(1), v);
        assert forall|i: int| 0 <= i < r.messages.len() implies (#[trigger] r.messages[i]).0 != 0 && tree_wf(r.messages[i].1) by { assert(t.messages[i].0 != 0 && tree_wf(t.messages[i].1)); }
        assert(distinct_msgs(r.messages)) by { assert forall|i: int, j: int| 0 <= i < j < r.messages.len() implies pb_name(#[trigger] r.messages[i].0) != pb_name(#[trigger] r.messages[j].0) by { assert(pb_name(t.messages[i].0) != pb_name(t.messages[j].0)); } }
    }
}
pub proof fn lemma_wf_msg(t: Node, f: int)
    requires tree_wf(t), f != 0
    ensures tree_wf(C_RequestWeaver_WeaveInfo { messages: with_msg(t.messages, f), ..t })
{
    lemma_find(t.messages, pb_name(f), 0);
    let r = C_RequestWeaver_WeaveInfo { messages: with_msg(t.messages, f), ..t };
    assert(tree_wf(empty_node()));
    assert forall|i: int| 0 <= i < r.messages.len() implies (#[trigger] r.messages[i]).0 != 0 && tree_wf(r.messages[i].1) by { if i < t.messages.len() { assert(t.messages[i].0 != 0 && tree_wf(t.messages[i].1)); } }
    assert(distinct_msgs(r.messages)) by { assert forall|i: int, j: int| 0 <= i < j < r.messages.len() implies pb_name(#[trigger] r.messages[i].0) != pb_name(#[trigger] r.messages[j].0) by { if j < t.messages.len() { assert(pb_name(t.messages[i].0) != pb_name(t.messages[j].0)); } else { assert(pb_name(t.messages[i].0) != pb_name(f)); } } }
}
pub proof fn lemma_wf_push(t: Node, f: int, v: Seq<u8>)
    requires tree_wf(t), f != 0
    ensures tree_wf(C_RequestWeaver_WeaveInfo { bindings: t.bindings.push((f, v)), ..t })
{
    let r = C_RequestWeaver_WeaveInfo { bindings: t.bindings.push((f, v)), ..t };
    assert forall|i: int| 0 <= i < r.bindings.len() implies (#[trigger] r.bindings[i]).0 != 0 by { if i < t.bindings.len() { assert(t.bindings[i].0 != 0); } }
}
pub proof fn lemma_tree2()
    ensures
        forall|t: Node, p: Seq<int>, v: Node| tree_ok(t, p) && tree_wf(t) && tree_wf(v) ==> tree_wf(#[trigger] tree_put(t, p, v)),
        forall|t: Node, p: Seq<int>, i: int| tree_ok(t, p) ==> #[trigger] tree_ok(t, p.push(i)) == (0 <= i < tree_at(t, p).messages.len()),
        forall|t: Node, p: Seq<int>, i: int| tree_ok(t, p) && 0 <= i < tree_at(t, p).messages.len() ==> #[trigger] tree_at(t, p.push(i)) == tree_at(t, p).messages[i].1,
        forall|t: Node, p: Seq<int>, i: int, v: Node| tree_ok(t, p) && 0 <= i < tree_at(t, p).messages.len() ==> #[trigger] tree_put(t, p.push(i), v) == tree_put(t, p, set_child(tree_at(t, p), i, v)),
        forall|t: Node, f: int| tree_wf(t) && f != 0 ==> #[trigger] tree_wf(C_RequestWeaver_WeaveInfo { messages: with_msg(t.messages, f), ..t }),
        forall|t: Node, f: int, v: Seq<u8>| tree_wf(t) && f != 0 ==> #[trigger] tree_wf(C_RequestWeaver_WeaveInfo { bindings: t.bindings.push((f, v)), ..t }),
{
    assert forall|t: Node, p: Seq<int>, v: Node| tree_ok(t, p) && tree_wf(t) && tree_wf(v) implies tree_wf(#[trigger] tree_put(t, p, v)) by { lemma_wf_put(t, p, v); }
    assert forall|t: Node, p: Seq<int>, i: int| tree_ok(t, p) implies #[trigger] tree_ok(t, p.push(i)) == (0 <= i < tree_at(t, p).messages.len()) by { lemma_child(t, p, i); }
    assert forall|t: Node, p: Seq<int>, i: int| tree_ok(t, p) && 0 <= i < tree_at(t, p).messages.len() implies #[trigger] tree_at(t, p.push(i)) == tree_at(t, p).messages[i].1 by { lemma_child(t, p, i); }
    assert forall|t: Node, p: Seq<int>, i: int, v: Node| tree_ok(t, p) && 0 <= i < tree_at(t, p).messages.len() implies #[trigger] tree_put(t, p.push(i), v) == tree_put(t, p, set_child(tree_at(t, p), i, v)) by { lemma_put_child(t, p, i, v); }
    assert forall|t: Node, f: int| tree_wf(t) && f != 0 implies #[trigger] tree_wf(C_RequestWeaver_WeaveInfo { messages: with_msg(t.messages, f), ..t }) by { lemma_wf_msg(t, f); }
    assert forall|t: Node, f: int, v: Seq<u8>| tree_wf(t) && f != 0 implies #[trigger] tree_wf(C_RequestWeaver_WeaveInfo { bindings: t.bindings.push((f, v)), ..t }) by { lemma_wf_push(t, f, v); }
}
pub proof fn lemma_take<A>()
    ensures forall|s: Seq<A>| #[trigger] s.take(s.len() as int) == s, forall|s: Seq<A>, i: int| 0 < i <= s.len() ==> (#[trigger] s.take(i)).drop_last() == s.take(i - 1),
{
    assert forall|s: Seq<A>| #[trigger] s.take(s.len() as int) == s by { assert(s.take(s.len() as int) =~= s); }
    assert forall|s: Seq<A>, i: int| 0 < i <= s.len() implies (#[trigger] s.take(i)).drop_last() == s.take(i - 1) by { assert(s.take(i).drop_last() =~= s.take(i - 1)); }
}
pub proof fn lemma_bound_take(bs: Seq<(int, Seq<u8>)>)
    ensures bound_events(bs.take(0)) =~= Seq::<Evt>::empty(), bs.take(bs.len() as int) == bs,
        forall|i: int| 0 <= i < bs.len() ==> #[trigger] bound_events(bs.take(i + 1)) == bound_events(bs.take(i)).push(Evt::Value(pb_name(bs[i].0), Piece::Text(bs[i].1))),
{
    assert(bs.take(bs.len() as int) =~= bs);
    assert forall|i: int| 0 <= i < bs.len() implies #[trigger] bound_events(bs.take(i + 1)) == bound_events(bs.take(i)).push(Evt::Value(pb_name(bs[i].0), Piece::Text(bs[i].1))) by {
        assert(bound_events(bs.take(i + 1)) =~= bound_events(bs.take(i)).push(Evt::Value(pb_name(bs[i].0), Piece::Text(bs[i].1))));
    }
}
pub proof fn lemma_skip<A>()
    ensures forall|s: Seq<A>| #[trigger] s.skip(0) == s,
        forall|s: Seq<A>, i: int| 0 <= i < s.len() ==> #[trigger] s.skip(i).skip(1) == s.skip(i + 1),
        forall|s: Seq<A>, i: int, j: int, n: int| 0 <= i < n && j == i + 1 && n == s.len() ==> #[trigger] (s.subrange(0, i) + s.subrange(j, n)).skip(i) == s.skip(i + 1),
        forall|s: Seq<A>, i: int, j: int, n: int| 0 <= i < n && j == i + 1 && n == s.len() ==> #[trigger] (s.subrange(0, i) + s.subrange(j, n)).take(i) == s.take(i),
{
    assert forall|s: Seq<A>| #[trigger] s.skip(0) == s by { assert(s.skip(0) =~= s); }
    assert forall|s: Seq<A>, i: int| 0 <= i < s.len() implies #[trigger] s.skip(i).skip(1) == s.skip(i + 1) by { assert(s.skip(i).skip(1) =~= s.skip(i + 1)); }
    assert forall|s: Seq<A>, i: int, j: int, n: int| 0 <= i < n && j == i + 1 && n == s.len() implies #[trigger] (s.subrange(0, i) + s.subrange(j, n)).skip(i) == s.skip(i + 1) by {
        assert((s.subrange(0, i) + s.subrange(j, n)).skip(i) =~= s.skip(i + 1)); }
    assert forall|s: Seq<A>, i: int, j: int, n: int| 0 <= i < n && j == i + 1 && n == s.len() implies #[trigger] (s.subrange(0, i) + s.subrange(j, n)).take(i) == s.take(i) by {
        assert((s.subrange(0, i) + s.subrange(j, n)).take(i) =~= s.take(i)); }
}
pub proof fn lemma_index()
    ensures forall|ms: Seq<(int, Node)>, f: int| 0 <= #[trigger] msg_index(ms, pb_name(f)) < with_msg(ms, f).len(),
{ assert forall|ms: Seq<(int, Node)>, f: int| 0 <= #[trigger] msg_index(ms, pb_name(f)) < with_msg(ms, f).len() by { lemma_find(ms, pb_name(f), 0); } }
// ---- what this means for whole streams (C20)
pub type Multiset<A> = vstd::multiset::Multiset<A>;
// the output, with every event labelled by where it comes from; Dropped: a binding that gives way to a body value
pub enum Tok { Body(Evt), Woven(int, Seq<u8>), Dropped(int, Seq<u8>), Open(Seq<u8>), Close }
pub open spec fn tok_events(k: Tok) -> Seq<Evt> {
    match k { Tok::Body(e) => seq![e], Tok::Woven(f, v) => seq![Evt::Value(pb_name(f), Piece::Text(v))], Tok::Dropped(_, _) => Seq::empty(), Tok::Open(n) => seq![Evt::StartObject(n)], Tok::Close => seq![Evt::EndObject] }
}
pub open spec fn flat(ts: Seq<Tok>) -> Seq<Evt> decreases ts.len() { if ts.len() == 0 { Seq::empty() } else { tok_events(ts[0]) + flat(ts.skip(1)) } }
pub open spec fn bodies(ts: Seq<Tok>) -> Seq<Evt> decreases ts.len() { if ts.len() == 0 { Seq::empty() } else { (if ts[0] is Body { seq![ts[0]->Body_0] } else { Seq::empty() }) + bodies(ts.skip(1)) } }
// the objects and lists that are open, and the names of the objects that were opened in each of them
pub struct Frame { pub list: bool, pub name: Seq<u8>, pub kids: Set<Seq<u8>> }
pub open spec fn entered(st: Seq<Frame>, n: Seq<u8>) -> Seq<Frame> {
    (if st.len() == 0 { st } else { st.update(st.len() - 1, Frame { kids: st.last().kids.insert(n), ..st.last() }) }).push(Frame { list: false, name: n, kids: Set::empty() })
}
pub open spec fn st_after(st: Seq<Frame>, k: Tok) -> Seq<Frame> {
    match k {
        Tok::Body(e) => match e { Evt::StartObject(n) => entered(st, n), Evt::StartList(n) => st.push(Frame { list: true, name: n, kids: Set::empty() }), Evt::Value(_, _) => st, _ => st.drop_last() },
        Tok::Open(n) => entered(st, n),
        Tok::Close => st.drop_last(),
        _ => st,
    }
}
pub open spec fn run(st: Seq<Frame>, ts: Seq<Tok>) -> Seq<Frame> decreases ts.len() { if ts.len() == 0 { st } else { run(st_after(st, ts[0]), ts.skip(1)) } }
pub open spec fn no_list(st: Seq<Frame>) -> bool { forall|i: int| 0 <= i < st.len() ==> !(#[trigger] st[i]).list }
// the names of the open objects inside the outermost one
pub open spec fn names(st: Seq<Frame>) -> Seq<Seq<u8>> { Seq::new((st.len() - 1) as nat, |i: int| st[i + 1].name) }
// bindings are written outside of lists, and objects are created only where none of that name was opened
pub open spec fn tok_ok(st: Seq<Frame>, k: Tok) -> bool {
    match k { Tok::Body(_) => true, Tok::Close => true, Tok::Open(n) => st.len() > 0 && no_list(st) && !st.last().kids.contains(n), _ => st.len() > 0 && no_list(st) }
}
pub open spec fn clean(st: Seq<Frame>, ts: Seq<Tok>) -> bool decreases ts.len() { ts.len() == 0 || (tok_ok(st, ts[0]) && clean(st_after(st, ts[0]), ts.skip(1))) }
// a binding: the names of the messages it is in, its field, its value
pub type Item = (Seq<Seq<u8>>, int, Seq<u8>);
pub open spec fn tok_items(st: Seq<Frame>, k: Tok) -> Multiset<Item> {
    match k { Tok::Woven(f, v) => Multiset::singleton((names(st), f, v)), Tok::Dropped(f, v) => Multiset::singleton((names(st), f, v)), _ => Multiset::empty() }
}
pub open spec fn items(st: Seq<Frame>, ts: Seq<Tok>) -> Multiset<Item> decreases ts.len() { if ts.len() == 0 { Multiset::empty() } else { tok_items(st, ts[0]).add(items(st_after(st, ts[0]), ts.skip(1))) } }
pub proof fn lemma_app(st: Seq<Frame>, a: Seq<Tok>, b: Seq<Tok>)
    ensures run(st, a + b) == run(run(st, a), b), clean(st, a + b) == (clean(st, a) && clean(run(st, a), b)), items(st, a + b) == items(st, a).add(items(run(st, a), b)),
        flat(a + b) == flat(a) + flat(b), bodies(a + b) == bodies(a) + bodies(b)
    decreases a.len()
{
    if a.len() == 0 {
        assert(a + b =~= b);
        assert(items(st, a).add(items(run(st, a), b)) =~= items(st, b));
        assert(flat(a) + flat(b) =~= flat(b));
        assert(bodies(a) + bodies(b) =~= bodies(b));
    } else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        let s2 = st_after(st, a[0]);
        lemma_app(s2, a.skip(1), b);
        assert(items(st, a + b) =~= items(st, a).add(items(run(st, a), b)));
        assert(flat(a + b) =~= flat(a) + flat(b));
        assert(bodies(a + b) =~= bodies(a) + bodies(b));
    }
}
pub proof fn lemma_one(st: Seq<Frame>, k: Tok)
    ensures run(st, seq![k]) == st_after(st, k), clean(st, seq![k]) == tok_ok(st, k), items(st, seq![k]) == tok_items(st, k), flat(seq![k]) == tok_events(k),
        bodies(seq![k]) == (if k is Body { seq![k->Body_0] } else { Seq::empty() })
{
    let ts = seq![k]; let s2 = st_after(st, k);
    assert(ts.skip(1) =~= Seq::<Tok>::empty());
    assert(run(s2, ts.skip(1)) == s2);
    assert(clean(s2, ts.skip(1)));
    assert(items(s2, ts.skip(1)) == Multiset::<Item>::empty());
    assert(items(st, ts) =~= tok_items(st, k));
    assert(flat(ts.skip(1)) == Seq::<Evt>::empty());
    assert(bodies(ts.skip(1)) == Seq::<Evt>::empty());
    assert(ts[0] == k);
    assert(flat(ts) =~= tok_events(k));
    assert(bodies(ts) =~= (if k is Body { seq![k->Body_0] } else { Seq::empty() }));
}
// ---- the bindings of a tree
pub open spec fn bitems(bs: Seq<(int, Seq<u8>)>, pre: Seq<Seq<u8>>) -> Multiset<Item> decreases bs.len() { if bs.len() == 0 { Multiset::empty() } else { Multiset::singleton((pre, bs[0].0, bs[0].1)).add(bitems(bs.skip(1), pre)) } }
pub open spec fn titems(t: Node, pre: Seq<Seq<u8>>) -> Multiset<Item> decreases t, t.messages.len() + 1 { bitems(t.bindings, pre).add(titems_upto(t, t.messages.len() as int, pre)) }
pub open spec fn titems_upto(t: Node, n: int, pre: Seq<Seq<u8>>) -> Multiset<Item> decreases t, n {
    if n <= 0 || n > t.messages.len() { Multiset::empty() } else { titems_upto(t, n - 1, pre).add(titems(t.messages[n - 1].1, pre.push(pb_name(t.messages[n - 1].0)))) }
}
pub open spec fn woven_toks(bs: Seq<(int, Seq<u8>)>) -> Seq<Tok> decreases bs.len() { if bs.len() == 0 { Seq::empty() } else { seq![Tok::Woven(bs[0].0, bs[0].1)] + woven_toks(bs.skip(1)) } }
pub open spec fn wtoks(t: Node) -> Seq<Tok> decreases t, t.messages.len() + 1 { woven_toks(t.bindings) + wtoks_upto(t, t.messages.len() as int) }
pub open spec fn wtoks_upto(t: Node, n: int) -> Seq<Tok> decreases t, n {
    if n <= 0 || n > t.messages.len() { Seq::empty() }
    else {
        let c = t.messages[n - 1].1;
        wtoks_upto(t, n - 1) + (if is_empty(c) { Seq::empty() } else { seq![Tok::Open(pb_name(t.messages[n - 1].0))] + wtoks(c) + seq![Tok::Close] })
    }
}
pub open spec fn ctoks(bs: Seq<(int, Seq<u8>)>, name: Seq<u8>) -> Seq<Tok> decreases bs.len() {
    if bs.len() == 0 { Seq::empty() }
    else { (if name != pb_name(bs[0].0) { Seq::empty() } else if is_repeated(bs[0].0) { seq![Tok::Woven(bs[0].0, bs[0].1)] } else { seq![Tok::Dropped(bs[0].0, bs[0].1)] }) + ctoks(bs.skip(1), name) }
}
pub open spec fn w_toks(s: WS, e: Evt) -> Seq<Tok> {
    (if e is EndObject && s.nad == 0 { wtoks(top(s)) } else if w_checked(s, e) && s.cur.len() > 0 { ctoks(top(s).bindings, e->Value_0) } else { Seq::empty() }) + seq![Tok::Body(e)]
}
proof fn lemma_woven(st: Seq<Frame>, bs: Seq<(int, Seq<u8>)>)
    requires st.len() > 0, no_list(st)
    ensures run(st, woven_toks(bs)) == st, clean(st, woven_toks(bs)), items(st, woven_toks(bs)) == bitems(bs, names(st)), flat(woven_toks(bs)) == bound_events(bs), bodies(woven_toks(bs)).len() == 0
    decreases bs.len()
{
    if bs.len() > 0 {
        let k = Tok::Woven(bs[0].0, bs[0].1);
        lemma_woven(st, bs.skip(1));
        lemma_one(st, k);
        lemma_app(st, seq![k], woven_toks(bs.skip(1)));
        assert(bound_events(bs) =~= seq![Evt::Value(pb_name(bs[0].0), Piece::Text(bs[0].1))] + bound_events(bs.skip(1)));
    } else { assert(bound_events(bs) =~= Seq::<Evt>::empty()); }
}
// same open objects, apart from what was opened in the innermost one
pub open spec fn similar(a: Seq<Frame>, b: Seq<Frame>) -> bool { a.len() > 0 && a.len() == b.len() && a.drop_last() == b.drop_last() && a.last().list == b.last().list && a.last().name == b.last().name }
proof fn lemma_similar(a: Seq<Frame>, b: Seq<Frame>)
    requires similar(a, b), no_list(a)
    ensures no_list(b), names(a) == names(b)
{
    assert forall|i: int| 0 <= i < b.len() implies !(#[trigger] b[i]).list by { if i < b.len() - 1 { assert(b.drop_last()[i] == a.drop_last()[i]); assert(!a[i].list); } }
    assert forall|i: int| 0 <= i < names(a).len() implies names(a)[i] == names(b)[i] by { if i + 1 < b.len() - 1 { assert(b.drop_last()[i + 1] == a.drop_last()[i + 1]); } }
    assert(names(a) =~= names(b));
}
// no submessage that is left was opened already
pub open spec fn not_opened(t: Node, st: Seq<Frame>) -> bool { forall|i: int| 0 <= i < t.messages.len() && st.last().kids.contains(pb_name(#[trigger] t.messages[i].0)) ==> is_empty(t.messages[i].1) }
proof fn lemma_empty_items(t: Node, pre: Seq<Seq<u8>>)
    requires is_empty(t)
    ensures titems(t, pre) == Multiset::<Item>::empty()
{ assert(titems_upto(t, 0, pre) == Multiset::<Item>::empty()); assert(titems(t, pre) =~= Multiset::empty()); }
// everything in a node is written, in the objects it belongs to
proof fn lemma_wtoks(st: Seq<Frame>, t: Node)
    requires st.len() > 0, no_list(st), tree_wf(t), not_opened(t, st)
    ensures similar(st, run(st, wtoks(t))), clean(st, wtoks(t)), items(st, wtoks(t)) == titems(t, names(st)), flat(wtoks(t)) == weave(t), bodies(wtoks(t)).len() == 0
    decreases t, t.messages.len() + 1
{
    let n = t.messages.len() as int;
    lemma_woven(st, t.bindings);
    lemma_wtoks_upto(st, t, n);
    lemma_app(st, woven_toks(t.bindings), wtoks_upto(t, n));
}
proof fn lemma_wtoks_upto(st: Seq<Frame>, t: Node, n: int)
    requires st.len() > 0, no_list(st), tree_wf(t), not_opened(t, st), 0 <= n <= t.messages.len()
    ensures similar(st, run(st, wtoks_upto(t, n))), clean(st, wtoks_upto(t, n)), items(st, wtoks_upto(t, n)) == titems_upto(t, n, names(st)), flat(wtoks_upto(t, n)) == weave_upto(t, n), bodies(wtoks_upto(t, n)).len() == 0,
        forall|x: Seq<u8>| #[trigger] run(st, wtoks_upto(t, n)).last().kids.contains(x) ==> st.last().kids.contains(x) || exists|i: int| 0 <= i < n && x == pb_name(#[trigger] t.messages[i].0)
    decreases t, n
{
    if n > 0 {
        let m = n - 1;
        let c = t.messages[m].1;
        let nm = pb_name(t.messages[m].0);
        lemma_wtoks_upto(st, t, m);
        let s1 = run(st, wtoks_upto(t, m));
        lemma_similar(st, s1);
        assert(tree_wf(c));
        if is_empty(c) {
            lemma_empty_items(c, names(st).push(nm));
            assert(wtoks_upto(t, n) =~= wtoks_upto(t, m));
            assert(weave_upto(t, n) =~= weave_upto(t, m));
            assert(titems_upto(t, n, names(st)) =~= titems_upto(t, m, names(st)));
        } else {
            let s2 = entered(s1, nm);
            assert(!s1.last().kids.contains(nm)) by {
                if s1.last().kids.contains(nm) {
                    if st.last().kids.contains(nm) { assert(is_empty(t.messages[m].1)); }
                    else { let i = choose|i: int| 0 <= i < m && nm == pb_name(#[trigger] t.messages[i].0); assert(pb_name(t.messages[i].0) != pb_name(t.messages[m].0)); }
                }
            }
            assert(no_list(s2)) by { assert forall|i: int| 0 <= i < s2.len() implies !(#[trigger] s2[i]).list by { if i < s1.len() { assert(!s1[i].list); } } }
            assert(names(s2) =~= names(s1).push(nm)) by {
                assert forall|i: int| 0 <= i < names(s2).len() implies names(s2)[i] == names(s1).push(nm)[i] by { if i + 1 < s1.len() { assert(s2[i + 1].name == s1[i + 1].name); } }
            }
            lemma_wtoks(s2, c);
            let s3 = run(s2, wtoks(c));
            let o = seq![Tok::Open(nm)]; let z = seq![Tok::Close];
            lemma_one(s1, Tok::Open(nm));
            lemma_one(s3, Tok::Close);
            lemma_app(s1, o, wtoks(c));
            lemma_app(s1, o + wtoks(c), z);
            lemma_app(st, wtoks_upto(t, m), o + wtoks(c) + z);
            let s4 = run(s1, o + wtoks(c) + z);
            assert(s4 == s3.drop_last());
            assert(s3.drop_last() == s2.drop_last());
            assert(s2.drop_last() =~= s1.update(s1.len() - 1, Frame { kids: s1.last().kids.insert(nm), ..s1.last() }));
            assert(s4.drop_last() =~= s1.drop_last());
            assert(items(s1, o + wtoks(c) + z) =~= titems(c, names(st).push(nm)));
            assert(items(st, wtoks_upto(t, n)) =~= titems_upto(t, n, names(st)));
            assert(flat(o + wtoks(c) + z) =~= seq![Evt::StartObject(nm)] + weave(c) + seq![Evt::EndObject]);
            assert forall|x: Seq<u8>| #[trigger] run(st, wtoks_upto(t, n)).last().kids.contains(x) implies st.last().kids.contains(x) || exists|i: int| 0 <= i < n && x == pb_name(#[trigger] t.messages[i].0) by {
                if x == nm { assert(x == pb_name(t.messages[m].0)); }
            }
        }
    } else { assert(wtoks_upto(t, n) =~= Seq::<Tok>::empty()); }
}
proof fn lemma_ctoks(st: Seq<Frame>, bs: Seq<(int, Seq<u8>)>, name: Seq<u8>)
    requires st.len() > 0, no_list(st)
    ensures run(st, ctoks(bs, name)) == st, clean(st, ctoks(bs, name)), flat(ctoks(bs, name)) == bound_repeated(bs, name), bodies(ctoks(bs, name)).len() == 0,
        items(st, ctoks(bs, name)).add(bitems(kept(bs, name), names(st))) == bitems(bs, names(st))
    decreases bs.len()
{
    let pre = names(st);
    if bs.len() > 0 {
        let r = bs.skip(1);
        lemma_ctoks(st, r, name);
        if name == pb_name(bs[0].0) {
            let k = if is_repeated(bs[0].0) { Tok::Woven(bs[0].0, bs[0].1) } else { Tok::Dropped(bs[0].0, bs[0].1) };
            lemma_one(st, k);
            lemma_app(st, seq![k], ctoks(r, name));
        } else {
            assert(ctoks(bs, name) =~= ctoks(r, name));
            assert(bound_repeated(bs, name) =~= bound_repeated(r, name));
            let kb = kept(bs, name);
            assert(kb[0] == bs[0] && kb.skip(1) =~= kept(r, name));
        }
        assert(items(st, ctoks(bs, name)).add(bitems(kept(bs, name), pre)) =~= bitems(bs, pre));
    } else { assert(items(st, ctoks(bs, name)).add(bitems(kept(bs, name), pre)) =~= bitems(bs, pre)); }
}
// ---- changing one node of a tree
pub open spec fn pnames(t: Node, p: Seq<int>) -> Seq<Seq<u8>> decreases p.len() { if p.len() == 0 { Seq::empty() } else { seq![pb_name(t.messages[p[0]].0)] + pnames(t.messages[p[0]].1, p.skip(1)) } }
proof fn lemma_upto_same(t: Node, u: Node, n: int, pre: Seq<Seq<u8>>)
    requires 0 <= n <= t.messages.len(), n <= u.messages.len(), forall|i: int| 0 <= i < n ==> #[trigger] t.messages[i] == u.messages[i]
    ensures titems_upto(t, n, pre) == titems_upto(u, n, pre)
    decreases n
{ if n > 0 { lemma_upto_same(t, u, n - 1, pre); assert(t.messages[n - 1] == u.messages[n - 1]); } }
proof fn lemma_upto_child(t: Node, k: int, v: Node, n: int, pre: Seq<Seq<u8>>)
    requires 0 <= k < n <= t.messages.len()
    ensures titems_upto(set_child(t, k, v), n, pre).add(titems(t.messages[k].1, pre.push(pb_name(t.messages[k].0)))) == titems_upto(t, n, pre).add(titems(v, pre.push(pb_name(t.messages[k].0))))
    decreases n
{
    let u = set_child(t, k, v);
    let q = pre.push(pb_name(t.messages[k].0));
    if n == k + 1 { lemma_upto_same(t, u, k, pre); assert(u.messages[k] == (t.messages[k].0, v)); }
    else { lemma_upto_child(t, k, v, n - 1, pre); assert(u.messages[n - 1] == t.messages[n - 1]); }
    assert(titems_upto(u, n, pre).add(titems(t.messages[k].1, q)) =~= titems_upto(t, n, pre).add(titems(v, q))) by {
        assert forall|i: Item| #[trigger] titems_upto(u, n, pre).add(titems(t.messages[k].1, q)).count(i) == titems_upto(t, n, pre).add(titems(v, q)).count(i) by {
            if n > k + 1 { assert(titems_upto(u, n - 1, pre).add(titems(t.messages[k].1, q)).count(i) == titems_upto(t, n - 1, pre).add(titems(v, q)).count(i)); }
        }
    }
}
proof fn lemma_items_put(t: Node, p: Seq<int>, v: Node, pre: Seq<Seq<u8>>)
    requires tree_ok(t, p)
    ensures titems(tree_put(t, p, v), pre).add(titems(tree_at(t, p), pre + pnames(t, p))) == titems(t, pre).add(titems(v, pre + pnames(t, p)))
    decreases p.len()
{
    if p.len() == 0 { assert(pre + pnames(t, p) =~= pre); assert(titems(v, pre).add(titems(t, pre)) =~= titems(t, pre).add(titems(v, pre))); }
    else {
        let k = p[0]; let c = t.messages[k].1; let q = pre.push(pb_name(t.messages[k].0)); let r = p.skip(1);
        let w = tree_put(c, r, v);
        lemma_items_put(c, r, v, q);
        assert(q + pnames(c, r) =~= pre + pnames(t, p));
        lemma_upto_child(t, k, w, t.messages.len() as int, pre);
        let a = titems(tree_put(t, p, v), pre); let x = titems(tree_at(t, p), pre + pnames(t, p)); let y = titems(v, pre + pnames(t, p));
        assert(a.add(x) =~= titems(t, pre).add(y)) by {
            assert forall|i: Item| #[trigger] a.add(x).count(i) == titems(t, pre).add(y).count(i) by {
                assert(titems_upto(set_child(t, k, w), t.messages.len() as int, pre).add(titems(c, q)).count(i) == titems_upto(t, t.messages.len() as int, pre).add(titems(w, q)).count(i));
                assert(titems(w, q).add(x).count(i) == titems(c, q).add(y).count(i));
            }
        }
    }
}
// the nodes above the changed one keep everything but the child on the way
proof fn lemma_above(t: Node, p: Seq<int>, v: Node, k: int)
    requires tree_ok(t, p), 0 <= k < p.len()
    ensures tree_ok(t, p.take(k)), 0 <= p[k] < tree_at(t, p.take(k)).messages.len(), tree_at(tree_put(t, p, v), p.take(k)) == set_child(tree_at(t, p.take(k)), p[k], tree_at(tree_put(t, p, v), p.take(k + 1))),
        tree_at(t, p.take(k + 1)) == tree_at(t, p.take(k)).messages[p[k]].1, tree_ok(tree_put(t, p, v), p.take(k)), tree_ok(tree_put(t, p, v), p.take(k + 1))
    decreases k
{
    let c = t.messages[p[0]].1; let u = tree_put(t, p, v); let p1 = p.take(k + 1); let p0 = p.take(k); let d = p.skip(1);
    assert(u == set_child(t, p[0], tree_put(c, d, v)));
    assert(u.messages[p[0]].1 == tree_put(c, d, v));
    assert(p1.skip(1) =~= d.take(k));
    assert(p1[0] == p[0] && p1.len() > 0);
    assert(tree_at(t, p1) == tree_at(c, p1.skip(1)));
    assert(tree_at(u, p1) == tree_at(u.messages[p1[0]].1, p1.skip(1)));
    assert(tree_ok(u, p1) == tree_ok(u.messages[p1[0]].1, p1.skip(1)));
    if k > 0 {
        assert(p0.skip(1) =~= d.take(k - 1));
        assert(p0[0] == p[0] && p0.len() > 0);
        lemma_above(c, d, v, k - 1);
        assert(d[k - 1] == p[k]);
        assert(tree_at(t, p0) == tree_at(c, p0.skip(1)));
        assert(tree_at(u, p0) == tree_at(u.messages[p0[0]].1, p0.skip(1)));
        assert(tree_ok(t, p0) == tree_ok(c, p0.skip(1)));
        assert(tree_ok(u, p0) == tree_ok(u.messages[p0[0]].1, p0.skip(1)));
        assert(d.take(k - 1 + 1) =~= d.take(k));
    } else {
        assert(p0.len() == 0);
        assert(tree_at(t, p0) == t && tree_at(u, p0) == u);
        assert(d.take(0).len() == 0);
        assert(tree_at(c, d.take(0)) == c);
        assert(tree_at(tree_put(c, d, v), d.take(0)) == tree_put(c, d, v));
        assert(tree_at(u, p1) == tree_put(c, d, v));
        assert(tree_ok(u.messages[p[0]].1, d.take(0)));
    }
}
proof fn lemma_pnames_put(t: Node, p: Seq<int>, v: Node)
    requires tree_ok(t, p)
    ensures pnames(tree_put(t, p, v), p) == pnames(t, p)
    decreases p.len()
{ if p.len() > 0 { lemma_pnames_put(t.messages[p[0]].1, p.skip(1), v); } }
proof fn lemma_pnames_push(t: Node, p: Seq<int>, i: int)
    requires tree_ok(t, p.push(i))
    ensures pnames(t, p.push(i)) == pnames(t, p).push(pb_name(tree_at(t, p).messages[i].0)), tree_ok(t, p)
    decreases p.len()
{
    let q = p.push(i);
    if p.len() > 0 {
        assert(q.skip(1) =~= p.skip(1).push(i)); assert(q[0] == p[0]);
        lemma_pnames_push(t.messages[p[0]].1, p.skip(1), i);
        assert(pnames(t, q) =~= pnames(t, p).push(pb_name(tree_at(t, p).messages[i].0)));
    } else {
        assert(q.skip(1).len() == 0); assert(pnames(t.messages[i].1, q.skip(1)).len() == 0);
        assert(pnames(t, q) =~= pnames(t, p).push(pb_name(t.messages[i].0)));
    }
}
// ---- the bindings put into the tree by the constructor
proof fn lemma_bitems_push(bs: Seq<(int, Seq<u8>)>, x: (int, Seq<u8>), pre: Seq<Seq<u8>>)
    ensures bitems(bs.push(x), pre) == bitems(bs, pre).add(Multiset::singleton((pre, x.0, x.1)))
    decreases bs.len()
{
    let b = bs.push(x);
    if bs.len() > 0 { assert(b.skip(1) =~= bs.skip(1).push(x)); lemma_bitems_push(bs.skip(1), x, pre); }
    else { assert(b.skip(1).len() == 0); assert(bitems(b.skip(1), pre) == Multiset::<Item>::empty()); }
    assert(bitems(b, pre) =~= bitems(bs, pre).add(Multiset::singleton((pre, x.0, x.1))));
}
pub open spec fn field_names(p: Seq<int>) -> Seq<Seq<u8>> { Seq::new(p.len(), |i: int| pb_name(p[i])) }
// the binding of value v to the field at the end of path p
pub open spec fn item_of(pre: Seq<Seq<u8>>, p: Seq<int>, v: Seq<u8>) -> Item { (pre + field_names(p.drop_last()), p.last(), v) }
proof fn lemma_bind_items(t: Node, p: Seq<int>, v: Seq<u8>, pre: Seq<Seq<u8>>)
    ensures titems(tree_bind(t, p, v), pre) == (if p.len() == 0 { titems(t, pre) } else { titems(t, pre).add(Multiset::singleton(item_of(pre, p, v))) })
    decreases p.len()
{
    let r = tree_bind(t, p, v); let n = t.messages.len() as int;
    if p.len() == 1 {
        lemma_bitems_push(t.bindings, (p[0], v), pre);
        lemma_upto_same(t, r, n, pre);
        assert(pre + field_names(p.drop_last()) =~= pre);
        assert(titems(r, pre) =~= titems(t, pre).add(Multiset::singleton(item_of(pre, p, v))));
    } else if p.len() > 1 {
        let k = msg_index(t.messages, pb_name(p[0]));
        let u = C_RequestWeaver_WeaveInfo { messages: with_msg(t.messages, p[0]), ..t };
        lemma_find(t.messages, pb_name(p[0]), 0);
        let c = u.messages[k].1; let w = tree_bind(c, p.skip(1), v); let q = pre.push(pb_name(u.messages[k].0));
        lemma_upto_same(t, u, n, pre);
        assert(titems(u, pre) =~= titems(t, pre)) by { if u.messages.len() > n { lemma_empty_items(empty_node(), q); assert(u.messages[n].1 == empty_node()); assert(titems_upto(u, n + 1, pre) =~= titems_upto(u, n, pre)); } }
        lemma_bind_items(c, p.skip(1), v, q);
        lemma_upto_child(u, k, w, u.messages.len() as int, pre);
        assert(p.skip(1).drop_last() =~= p.drop_last().skip(1));
        assert(q + field_names(p.skip(1).drop_last()) =~= pre + field_names(p.drop_last()));
        let one = Multiset::singleton(item_of(pre, p, v));
        assert(titems(r, pre) =~= titems(t, pre).add(one)) by {
            assert forall|i: Item| #[trigger] titems(r, pre).count(i) == titems(t, pre).add(one).count(i) by {
                assert(titems_upto(r, u.messages.len() as int, pre).add(titems(c, q)).count(i) == titems_upto(u, u.messages.len() as int, pre).add(titems(w, q)).count(i));
                assert(titems(w, q).count(i) == titems(c, q).add(one).count(i));
            }
        }
    }
}
pub open spec fn given(bs: Seq<C_RequestWeaver_BindingInfo>) -> Multiset<Item> decreases bs.len() {
    if bs.len() == 0 { Multiset::empty() } else { let b = bs.last(); if b.field_path.len() == 0 { given(bs.drop_last()) } else { given(bs.drop_last()).add(Multiset::singleton(item_of(Seq::empty(), b.field_path, b.value))) } }
}
pub proof fn lemma_given(bs: Seq<C_RequestWeaver_BindingInfo>)
    ensures titems(bound(bs), Seq::empty()) == given(bs)
    decreases bs.len()
{
    if bs.len() == 0 { lemma_empty_items(empty_node(), Seq::empty()); }
    else { lemma_given(bs.drop_last()); lemma_bind_items(bound(bs.drop_last()), bs.last().field_path, bs.last().value, Seq::empty()); }
}
// ---- the state of the weaver against the objects and lists that are open
pub open spec fn child_of(t: Node, p: Seq<int>, i: int) -> (int, Node) { tree_at(t, p).messages[i] }
pub open spec fn kid_done(s: WS, st: Seq<Frame>, k: int, i: int) -> bool {
    0 <= i < tree_at(s.root, s.cur[k]).messages.len() && st[k].kids.contains(pb_name(child_of(s.root, s.cur[k], i).0)) ==> (k + 1 < s.cur.len() && s.cur[k + 1].last() == i) || is_empty(child_of(s.root, s.cur[k], i).1)
}
pub open spec fn in_step(s: WS, st: Seq<Frame>) -> bool {
    &&& ws_ok(s)
    &&& if s.cur.len() == 0 { s.nad == 0 && st.len() == 0 } else { s.cur.len() + s.nad == st.len() && pnames(s.root, s.cur.last()) == names(st.take(s.cur.len() as int)) }
    &&& no_list(st.take(s.cur.len() as int))
    &&& forall|k: int, i: int| 0 <= k < s.cur.len() ==> #[trigger] kid_done(s, st, k, i)
}
// the event can come next in a well-nested stream whose outermost value is an object
pub open spec fn fits(st: Seq<Frame>, e: Evt) -> bool {
    match e { Evt::StartObject(_) => true, Evt::EndObject => st.len() > 0 && !st.last().list, Evt::EndList => st.len() > 0 && st.last().list, _ => st.len() > 0 }
}
pub open spec fn moved(s: WS, e: Evt, k: WS) -> bool { k.root == w_root(s, e) && k.cur == w_cur(s, e) && k.nad == w_nad(s, e) && k.w.log == s.w.log + w_events(s, e) }
pub open spec fn wstep(s: WS, report: bool, e: Evt, k: WS) -> bool { moved(s, e, k) && w_err(s, report, e, k.err) }
// what the functions require
pub open spec fn allowed(s: WS, e: Evt) -> bool {
    ws_ok(s) && match e { Evt::StartObject(_) => s.nad < 0x7fff_ffff, Evt::StartList(_) => s.nad < 0x7fff_ffff, Evt::EndObject => s.nad > 0 || s.cur.len() > 0, Evt::EndList => s.nad > 0, _ => true }
}
pub proof fn lemma_allowed(s: WS, st: Seq<Frame>, e: Evt)
    requires in_step(s, st), fits(st, e), st.len() < 0x7fff_ffff
    ensures allowed(s, e)
{ if e is EndList { if s.nad == 0 { let t = st.take(s.cur.len() as int); assert(t.last() == st.last()); assert(!t[t.len() - 1].list); } } }
pub proof fn lemma_prefix(root: Node, cur: Seq<Seq<int>>, k: int)
    requires on_path(root, cur), 0 <= k < cur.len()
    ensures cur[k] == cur.last().take(k), k + 1 < cur.len() ==> cur[k + 1].last() == cur.last()[k]
    decreases cur.len() - k
{
    if k + 1 < cur.len() {
        lemma_prefix(root, cur, k + 1);
        assert(cur[k + 1].drop_last() == cur[k]);
        assert(cur[k] =~= cur.last().take(k));
    } else { assert(cur.last().len() == k); assert(cur[k] =~= cur.last().take(k)); }
}
// a new value for the node at hand (with the same submessages, or emptied) keeps everything in step
proof fn lemma_replace(s: WS, st: Seq<Frame>, v: Node)
    requires in_step(s, st), s.cur.len() > 0, tree_wf(v)
    ensures ({ let r = tree_put(s.root, s.cur.last(), v);
        &&& tree_wf(r) && on_path(r, s.cur) && tree_at(r, s.cur.last()) == v && pnames(r, s.cur.last()) == pnames(s.root, s.cur.last())
        &&& forall|k: int, i: int| 0 <= k < s.cur.len() - 1 ==> #[trigger] kid_done(WS { root: r, ..s }, st, k, i)
        &&& titems(r, Seq::empty()).add(titems(top(s), names(st.take(s.cur.len() as int)))) == titems(s.root, Seq::empty()).add(titems(v, names(st.take(s.cur.len() as int)))) })
{
    let p = s.cur.last(); let r = tree_put(s.root, p, v); let s2 = WS { root: r, ..s };
    let n = s.cur.len() as int;
    assert(tree_ok(s.root, s.cur[n - 1]));
    lemma_wf_put(s.root, p, v);
    lemma_get_put(s.root, p, v);
    lemma_pnames_put(s.root, p, v);
    lemma_items_put(s.root, p, v, Seq::empty());
    assert(Seq::empty() + pnames(s.root, p) =~= pnames(s.root, p));
    assert forall|k: int| 0 <= k < n implies (#[trigger] s.cur[k]).len() == k && tree_ok(r, s.cur[k]) && (k > 0 ==> s.cur[k].drop_last() == s.cur[k - 1]) by {
        lemma_prefix(s.root, s.cur, k);
        if k < n - 1 { lemma_above(s.root, p, v, k); }
    }
    assert forall|k: int, i: int| 0 <= k < n - 1 implies #[trigger] kid_done(s2, st, k, i) by {
        lemma_prefix(s.root, s.cur, k);
        lemma_above(s.root, p, v, k);
        assert(kid_done(s, st, k, i));
        let a = tree_at(s.root, s.cur[k]); let b = tree_at(r, s.cur[k]);
        assert(b.messages.len() == a.messages.len());
        if 0 <= i < a.messages.len() { if i != p[k] { assert(b.messages[i] == a.messages[i]); } else { assert(b.messages[i].0 == a.messages[i].0); } }
    }
}
proof fn lemma_kept_wf(t: Node, name: Seq<u8>)
    requires tree_wf(t)
    ensures tree_wf(C_RequestWeaver_WeaveInfo { bindings: kept(t.bindings, name), ..t })
{
    lemma_kept_ok(t.bindings, name);
}
proof fn lemma_kept_ok(bs: Seq<(int, Seq<u8>)>, name: Seq<u8>)
    requires forall|i: int| 0 <= i < bs.len() ==> (#[trigger] bs[i]).0 != 0
    ensures forall|i: int| 0 <= i < kept(bs, name).len() ==> (#[trigger] kept(bs, name)[i]).0 != 0
    decreases bs.len()
{
    if bs.len() > 0 {
        assert forall|i: int| 0 <= i < bs.skip(1).len() implies (#[trigger] bs.skip(1)[i]).0 != 0 by { assert(bs.skip(1)[i] == bs[i + 1]); }
        lemma_kept_ok(bs.skip(1), name);
        let r = kept(bs.skip(1), name);
        if name != pb_name(bs[0].0) { assert(kept(bs, name) == seq![bs[0]] + r); assert forall|i: int| 0 <= i < kept(bs, name).len() implies (#[trigger] kept(bs, name)[i]).0 != 0 by { if i > 0 { assert(kept(bs, name)[i] == r[i - 1]); } else { assert(kept(bs, name)[0] == bs[0]); } } }
    }
}
// one event: still in step; the bindings that leave the tree are written (or give way) in the object they belong to
pub open spec fn accounted(s: WS, st: Seq<Frame>, e: Evt, k: WS) -> bool {
    let ts = w_toks(s, e);
    &&& flat(ts) == w_events(s, e) && bodies(ts) == seq![e]
    &&& clean(st, ts)
    &&& titems(k.root, Seq::empty()).add(items(st, ts)) == titems(s.root, Seq::empty())
}
proof fn lemma_names_take(st: Seq<Frame>, n: int)
    requires 0 < n <= st.len()
    ensures names(st.take(n)) == names(st).take(n - 1)
{ assert(names(st.take(n)) =~= names(st).take(n - 1)); }
pub proof fn lemma_step(s: WS, st: Seq<Frame>, e: Evt, k: WS)
    requires in_step(s, st), fits(st, e), moved(s, e, k)
    ensures in_step(k, run(st, w_toks(s, e))), accounted(s, st, e, k)
{
    let n = s.cur.len() as int; let b = Tok::Body(e); let p = s.cur.last();
    let nothing = Seq::<Tok>::empty();
    if n > 0 { assert(tree_ok(s.root, s.cur[n - 1])); lemma_wf_at(s.root, p); assert(st.take(n).len() == n); }
    if e is EndObject && s.nad == 0 {
        let t = top(s);
        assert(st.take(n) =~= st);
        assert(not_opened(t, st)) by {
            assert forall|i: int| 0 <= i < t.messages.len() && st.last().kids.contains(pb_name(#[trigger] t.messages[i].0)) implies is_empty(t.messages[i].1) by { assert(kid_done(s, st, n - 1, i)); }
        }
        lemma_wtoks(st, t);
        let s1 = run(st, wtoks(t));
        lemma_one(s1, b);
        lemma_app(st, wtoks(t), seq![b]);
        lemma_step_close(s, st, k);
        assert(s1.drop_last() == st.drop_last());
        assert(bodies(wtoks(t)) + seq![e] =~= seq![e]);
        assert(items(st, w_toks(s, e)) =~= titems(t, names(st)));
    } else if w_checked(s, e) && n > 0 {
        let nm = e->Value_0; let t = top(s);
        assert(st.take(n) =~= st);
        lemma_ctoks(st, t.bindings, nm);
        lemma_one(st, b);
        lemma_app(st, ctoks(t.bindings, nm), seq![b]);
        assert(bodies(ctoks(t.bindings, nm)) + seq![e] =~= seq![e]);
        lemma_step_value(s, st, e, k);
        assert(items(st, w_toks(s, e)) =~= items(st, ctoks(t.bindings, nm)));
    } else {
        assert(w_toks(s, e) =~= seq![b]);
        lemma_one(st, b);
        assert(w_events(s, e) =~= seq![e]);
        lemma_step_plain(s, st, e, k);
        assert(titems(k.root, Seq::empty()).add(items(st, w_toks(s, e))) =~= titems(s.root, Seq::empty()));
    }
}
proof fn lemma_step_close(s: WS, st: Seq<Frame>, k: WS)
    requires in_step(s, st), fits(st, Evt::EndObject), moved(s, Evt::EndObject, k), s.nad == 0
    ensures in_step(k, st.drop_last()), titems(k.root, Seq::empty()).add(titems(top(s), names(st))) == titems(s.root, Seq::empty())
{
    let n = s.cur.len() as int; let st2 = st.drop_last();
    assert(st.take(n) =~= st);
    assert(tree_wf(empty_node()));
    lemma_replace(s, st, empty_node());
    lemma_empty_items(empty_node(), names(st));
    assert(titems(k.root, Seq::empty()).add(titems(top(s), names(st))) =~= titems(s.root, Seq::empty()));
    let s1 = WS { root: k.root, ..s };
    assert(on_path(k.root, k.cur)) by { assert forall|j: int| 0 <= j < k.cur.len() implies (#[trigger] k.cur[j]).len() == j && tree_ok(k.root, k.cur[j]) && (j > 0 ==> k.cur[j].drop_last() == k.cur[j - 1]) by { assert(k.cur[j] == s.cur[j]); } }
    assert(no_list(st2.take(k.cur.len() as int))) by { assert forall|i: int| 0 <= i < st2.len() implies !(#[trigger] st2.take(k.cur.len() as int)[i]).list by { assert(!st.take(n)[i].list); } }
    if n > 1 {
        lemma_prefix(s.root, s.cur, n - 2);
        assert(s.cur[n - 1].drop_last() == s.cur[n - 2]);
        assert(s.cur[n - 1] =~= s.cur[n - 2].push(s.cur[n - 1].last()));
        assert(tree_ok(k.root, s.cur[n - 1]));
        lemma_pnames_push(k.root, s.cur[n - 2], s.cur[n - 1].last());
        assert(st2.take(n - 1) =~= st2);
        assert(names(st2) =~= names(st).drop_last());
        assert(pnames(k.root, s.cur[n - 2]) =~= pnames(k.root, s.cur[n - 1]).drop_last());
    }
    assert forall|j: int, i: int| 0 <= j < k.cur.len() implies #[trigger] kid_done(k, st2, j, i) by {
        assert(kid_done(s1, st, j, i));
        assert(k.cur[j] == s.cur[j]);
        if j == n - 2 && i == s.cur[n - 1].last() {
            assert(s.cur[n - 1].drop_last() == s.cur[n - 2]);
            assert(s.cur[n - 1] =~= s.cur[n - 2].push(i));
            assert(tree_ok(k.root, s.cur[n - 2]));
            lemma_child(k.root, s.cur[n - 2], i);
        }
    }
}
proof fn lemma_step_value(s: WS, st: Seq<Frame>, e: Evt, k: WS)
    requires in_step(s, st), moved(s, e, k), w_checked(s, e), s.cur.len() > 0,
        items(st, ctoks(top(s).bindings, e->Value_0)).add(bitems(kept(top(s).bindings, e->Value_0), names(st))) == bitems(top(s).bindings, names(st))
    ensures in_step(k, st), titems(k.root, Seq::empty()).add(items(st, ctoks(top(s).bindings, e->Value_0))) == titems(s.root, Seq::empty())
{
    let n = s.cur.len() as int; let t = top(s); let nm = e->Value_0; let v = C_RequestWeaver_WeaveInfo { bindings: kept(t.bindings, nm), ..t };
    assert(st.take(n) =~= st);
    assert(tree_ok(s.root, s.cur[n - 1]));
    lemma_wf_at(s.root, s.cur.last());
    lemma_kept_wf(t, nm);
    lemma_replace(s, st, v);
    lemma_upto_same(t, v, t.messages.len() as int, names(st));
    let x = items(st, ctoks(t.bindings, nm));
    assert(titems(k.root, Seq::empty()).add(x) =~= titems(s.root, Seq::empty())) by {
        assert forall|i: Item| #[trigger] titems(k.root, Seq::empty()).add(x).count(i) == titems(s.root, Seq::empty()).count(i) by {
            assert(titems(k.root, Seq::empty()).add(titems(t, names(st))).count(i) == titems(s.root, Seq::empty()).add(titems(v, names(st))).count(i));
            assert(x.add(bitems(v.bindings, names(st))).count(i) == bitems(t.bindings, names(st)).count(i));
        }
    }
    let s1 = WS { root: k.root, ..s };
    assert forall|j: int, i: int| 0 <= j < k.cur.len() implies #[trigger] kid_done(k, st, j, i) by {
        if j < n - 1 { assert(kid_done(s1, st, j, i)); } else { assert(kid_done(s, st, j, i)); }
    }
}
proof fn lemma_step_plain(s: WS, st: Seq<Frame>, e: Evt, k: WS)
    requires in_step(s, st), fits(st, e), moved(s, e, k), !(e is EndObject && s.nad == 0), !(w_checked(s, e) && s.cur.len() > 0)
    ensures in_step(k, st_after(st, Tok::Body(e))), k.root == s.root
{
    let n = s.cur.len() as int; let st2 = st_after(st, Tok::Body(e));
    match e {
        Evt::StartObject(nm) => { lemma_step_open(s, st, nm, k); }
        Evt::Value(_, _) => { assert forall|j: int, i: int| 0 <= j < k.cur.len() implies #[trigger] kid_done(k, st2, j, i) by { assert(kid_done(s, st, j, i)); } }
        _ => {
            if e is EndList && s.nad == 0 { assert(st.take(n).last() == st.last()); assert(!st.take(n)[n - 1].list); }
            assert(st2.take(n) =~= st.take(n));
            assert forall|j: int, i: int| 0 <= j < k.cur.len() implies #[trigger] kid_done(k, st2, j, i) by { assert(kid_done(s, st, j, i)); assert(st2[j] == st[j]); }
        }
    }
}
proof fn lemma_step_open(s: WS, st: Seq<Frame>, nm: Seq<u8>, k: WS)
    requires in_step(s, st), moved(s, Evt::StartObject(nm), k)
    ensures in_step(k, entered(st, nm)), k.root == s.root
{
    let n = s.cur.len() as int; let st2 = entered(st, nm);
    if n == 0 {
        assert(k.cur.len() == 1 && k.cur[0].len() == 0);
        assert(st2.take(1) =~= st2);
        assert(names(st2) =~= pnames(k.root, k.cur[0]));
        assert forall|i: int| 0 <= i < st2.take(1).len() implies !(#[trigger] st2.take(1)[i]).list by {}
        assert forall|j: int, i: int| 0 <= j < k.cur.len() implies #[trigger] kid_done(k, st2, j, i) by { assert(st2[0].kids == Set::<Seq<u8>>::empty()); }
    } else {
        let t = top(s); let c = find_msg(t.messages, nm, 0); let p = s.cur.last();
        lemma_find(t.messages, nm, 0);
        assert(tree_ok(s.root, s.cur[n - 1]));
        lemma_wf_at(s.root, p);
        lemma_child(s.root, p, c);
        assert forall|i: int| 0 <= i < n implies st2.take(n)[i].name == st.take(n)[i].name && st2.take(n)[i].list == #[trigger] st.take(n)[i].list by {}
        assert(no_list(st2.take(n))) by { assert forall|i: int| 0 <= i < n implies !(#[trigger] st2.take(n)[i]).list by { assert(!st.take(n)[i].list); } }
        assert(names(st2.take(n)) =~= names(st.take(n)));
        if w_enters(s, Evt::StartObject(nm)) {
            assert(on_path(k.root, k.cur)) by { assert forall|j: int| 0 <= j < k.cur.len() implies (#[trigger] k.cur[j]).len() == j && tree_ok(k.root, k.cur[j]) && (j > 0 ==> k.cur[j].drop_last() == k.cur[j - 1]) by {
                if j < n { assert(k.cur[j] == s.cur[j]); } else { assert(s.cur[n - 1].len() == n - 1); assert(p.push(c).drop_last() =~= p); assert(k.cur[n - 1] == p); } } }
            lemma_pnames_push(s.root, p, c);
            assert(st2.len() == n + 1);
            assert(st2.take(n + 1) =~= st2);
            assert forall|i: int| 0 <= i < st2.len() implies !(#[trigger] st2[i]).list by { if i < n { assert(!st2.take(n)[i].list); } }
            assert(names(st2) =~= names(st.take(n)).push(nm)) by { assert forall|i: int| 0 <= i < names(st2).len() implies names(st2)[i] == names(st.take(n)).push(nm)[i] by { if i + 1 < n { assert(st2.take(n)[i + 1].name == st.take(n)[i + 1].name); } } }
            assert forall|j: int, i: int| 0 <= j < k.cur.len() implies #[trigger] kid_done(k, st2, j, i) by {
                if j < n {
                    assert(kid_done(s, st, j, i));
                    assert(k.cur[j] == s.cur[j]);
                    if j == n - 1 {
                        assert(k.cur[n].last() == c);
                        if 0 <= i < t.messages.len() && pb_name(t.messages[i].0) == nm && i != c {
                            if i < c { assert(pb_name(t.messages[i].0) != nm); } else { assert(pb_name(t.messages[c].0) != pb_name(t.messages[i].0)); }
                        }
                    } else { assert(st2[j].kids == st[j].kids); }
                } else { assert(st2[n].kids == Set::<Seq<u8>>::empty()); }
            }
        } else {
            assert forall|j: int, i: int| 0 <= j < k.cur.len() implies #[trigger] kid_done(k, st2, j, i) by {
                assert(kid_done(s, st, j, i));
                if j == n - 1 && s.nad == 0 && 0 <= i < t.messages.len() { assert(pb_name(t.messages[i].0) != nm); }
                else if j < st.len() - 1 { assert(st2[j].kids == st[j].kids); }
            }
        }
    }
}
// ---- whole streams
pub open spec fn wtrace(report: bool, t: Seq<WS>, es: Seq<Evt>) -> bool { t.len() == es.len() + 1 && forall|i: int| 0 <= i < es.len() ==> wstep(t[i], report, #[trigger] es[i], t[i + 1]) }
pub open spec fn body_stack(es: Seq<Evt>, n: int) -> Seq<Frame> decreases n { if n <= 0 { Seq::empty() } else { st_after(body_stack(es, n - 1), Tok::Body(es[n - 1])) } }
// well nested: every end closes what was opened last; one object
pub open spec fn one_object(es: Seq<Evt>) -> bool {
    es.len() > 0 && body_stack(es, es.len() as int).len() == 0 && (forall|i: int| 0 <= i < es.len() ==> fits(#[trigger] body_stack(es, i), es[i])) && (forall|i: int| 0 < i < es.len() ==> #[trigger] body_stack(es, i).len() > 0)
}
pub open spec fn out_toks(t: Seq<WS>, es: Seq<Evt>, n: int) -> Seq<Tok> decreases n { if n <= 0 { Seq::empty() } else { out_toks(t, es, n - 1) + w_toks(t[n - 1], es[n - 1]) } }
// open frames agree apart from the names of what was opened in them
pub open spec fn alike(a: Seq<Frame>, b: Seq<Frame>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).list == b[i].list && a[i].name == b[i].name }
proof fn lemma_run_step(s: WS, a: Seq<Frame>, b: Seq<Frame>, e: Evt)
    requires in_step(s, a), fits(a, e), alike(a, b)
    ensures alike(run(a, w_toks(s, e)), st_after(b, Tok::Body(e)))
{
    let n = s.cur.len() as int; let t = Tok::Body(e);
    if n > 0 { assert(tree_ok(s.root, s.cur[n - 1])); lemma_wf_at(s.root, s.cur.last()); }
    if e is EndObject && s.nad == 0 {
        assert(a.take(n) =~= a);
        assert(not_opened(top(s), a)) by {
            assert forall|i: int| 0 <= i < top(s).messages.len() && a.last().kids.contains(pb_name(#[trigger] top(s).messages[i].0)) implies is_empty(top(s).messages[i].1) by { assert(kid_done(s, a, n - 1, i)); }
        }
        lemma_wtoks(a, top(s));
        lemma_app(a, wtoks(top(s)), seq![t]);
        lemma_one(run(a, wtoks(top(s))), t);
        assert(run(a, w_toks(s, e)) == a.drop_last());
    } else if w_checked(s, e) && n > 0 {
        assert(a.take(n) =~= a);
        lemma_ctoks(a, top(s).bindings, e->Value_0);
        lemma_app(a, ctoks(top(s).bindings, e->Value_0), seq![t]);
        lemma_one(a, t);
    } else { assert(w_toks(s, e) =~= seq![t]); lemma_one(a, t); }
}
// all events of the body are forwarded in order, and at any time every binding given is either still to be written or was
// written (or gave way) exactly once, in the object of its path
pub open spec fn stream_at(report: bool, t: Seq<WS>, es: Seq<Evt>, n: int) -> bool {
    let o = out_toks(t, es, n);
    &&& t[n].w.log == t[0].w.log + flat(o)
    &&& bodies(o) == es.take(n)
    &&& clean(Seq::empty(), o)
    &&& titems(t[n].root, Seq::empty()).add(items(Seq::empty(), o)) == titems(t[0].root, Seq::empty())
    &&& in_step(t[n], run(Seq::empty(), o))
    &&& alike(run(Seq::empty(), o), body_stack(es, n))
    &&& body_stack(es, n).len() <= n
}
pub proof fn lemma_stream(report: bool, t: Seq<WS>, es: Seq<Evt>, n: int)
    requires wtrace(report, t, es), in_step(t[0], Seq::empty()), one_object(es), 0 <= n <= es.len(), es.len() < 0x7fff_ffff
    ensures stream_at(report, t, es, n), n < es.len() ==> allowed(t[n], es[n])
    decreases n
{
    let z = Seq::<Frame>::empty(); let o = out_toks(t, es, n);
    if n == 0 {
        assert(t[0].w.log + flat(o) =~= t[0].w.log);
        assert(bodies(o) =~= es.take(0));
        assert(titems(t[0].root, Seq::empty()).add(items(z, o)) =~= titems(t[0].root, Seq::empty()));
        assert(stream_at(report, t, es, 0));
    } else {
        lemma_stream(report, t, es, n - 1);
        lemma_stream_step(report, t, es, n);
    }
    if n < es.len() { assert(fits(body_stack(es, n), es[n])); lemma_fits_alike(run(z, o), body_stack(es, n), es[n]); lemma_allowed(t[n], run(z, o), es[n]); }
}
proof fn lemma_fits_alike(a: Seq<Frame>, b: Seq<Frame>, e: Evt)
    requires alike(a, b), fits(b, e)
    ensures fits(a, e)
{ if a.len() > 0 { assert(a[a.len() - 1].list == b[a.len() - 1].list); } }
#[verifier::rlimit(60)]
proof fn lemma_stream_step(report: bool, t: Seq<WS>, es: Seq<Evt>, n: int)
    requires wtrace(report, t, es), one_object(es), 0 < n <= es.len(), stream_at(report, t, es, n - 1), allowed(t[n - 1], es[n - 1]), es.len() < 0x7fff_ffff
    ensures stream_at(report, t, es, n)
{
    let z = Seq::<Frame>::empty(); let o = out_toks(t, es, n);
    let m = n - 1; let q = out_toks(t, es, m); let a = run(z, q); let e = es[m]; let w = w_toks(t[m], e); let b = body_stack(es, m);
    assert(wstep(t[m], report, es[m], t[n]));
    assert(fits(b, e));
    lemma_fits_alike(a, b, e);
    lemma_step(t[m], a, e, t[n]);
    lemma_run_step(t[m], a, b, e);
    lemma_app(z, q, w);
    assert(o == q + w);
    assert(run(z, o) == run(a, w));
    assert(bodies(o) =~= es.take(n)) by { assert(es.take(n) =~= es.take(m) + seq![e]); }
    assert(t[n].w.log =~= t[0].w.log + flat(o));
    assert(titems(t[n].root, Seq::empty()).add(items(z, o)) =~= titems(t[0].root, Seq::empty())) by {
        assert forall|i: Item| #[trigger] titems(t[n].root, Seq::empty()).add(items(z, o)).count(i) == titems(t[0].root, Seq::empty()).count(i) by {
            assert(titems(t[m].root, Seq::empty()).add(items(z, q)).count(i) == titems(t[0].root, Seq::empty()).count(i));
            assert(titems(t[n].root, Seq::empty()).add(items(a, w)).count(i) == titems(t[m].root, Seq::empty()).count(i));
        }
    }
}
// when the object is complete, exactly the bindings given have been written (or gave way), each once, in the object of its path
pub proof fn lemma_complete(report: bool, t: Seq<WS>, es: Seq<Evt>, bs: Seq<C_RequestWeaver_BindingInfo>)
    requires wtrace(report, t, es), one_object(es), es.len() < 0x7fff_ffff, t[0].root == bound(bs), t[0].cur.len() == 0, t[0].nad == 0, ws_ok(t[0])
    ensures ({ let o = out_toks(t, es, es.len() as int);
        &&& t.last().w.log == t[0].w.log + flat(o) && bodies(o) == es && clean(Seq::empty(), o)
        &&& items(Seq::empty(), o) == given(bs)
        &&& is_empty(t.last().root) })
{
    let n = es.len() as int; let z = Seq::<Frame>::empty(); let o = out_toks(t, es, n);
    assert(z.take(0).len() == 0);
    assert(in_step(t[0], z));
    lemma_stream(report, t, es, n);
    lemma_stream(report, t, es, n - 1);
    lemma_given(bs);
    assert(es.take(n) =~= es);
    let s = t[n - 1]; let a = run(z, out_toks(t, es, n - 1)); let e = es[n - 1];
    assert(wstep(s, report, es[n - 1], t[n]));
    assert(fits(body_stack(es, n - 1), e));
    // the last event closes the outermost object
    let b = body_stack(es, n - 1);
    assert(st_after(b, Tok::Body(e)).len() == 0);
    assert(n - 1 == 0 || b.len() > 0);
    assert(b.len() == 1 && closes_level(e));
    assert(a.len() == 1);
    assert(s.cur.len() > 0);
    assert(s.cur.len() == 1 && s.nad == 0);
    if e is EndList { assert(a.take(1)[0] == a[0]); assert(!a.take(1)[0].list); assert(a[0].list == b[0].list); }
    assert(s.cur[0].len() == 0);
    assert(t[n].root == empty_node());
    lemma_empty_items(t[n].root, Seq::empty());
    assert(items(z, o) =~= given(bs));
}
// ---- C21: which bindings give way, and what is reported
// dropped: only directly before a body value of that name, for a field that is not repeated; written there: only for a repeated field
pub proof fn lemma_given_way(s: WS, e: Evt, i: int)
    requires 0 <= i < w_toks(s, e).len()
    ensures w_toks(s, e)[i] is Dropped ==> w_checked(s, e) && pb_name(w_toks(s, e)[i]->Dropped_0) == e->Value_0 && !is_repeated(w_toks(s, e)[i]->Dropped_0),
        w_toks(s, e)[i] is Woven && e is Value ==> w_checked(s, e) && pb_name(w_toks(s, e)[i]->Woven_0) == e->Value_0 && is_repeated(w_toks(s, e)[i]->Woven_0),
        w_toks(s, e)[i] is Woven || w_toks(s, e)[i] is Open ==> e is Value || e is EndObject,
        w_toks(s, e).last() == Tok::Body(e)
{
    if e is EndObject && s.nad == 0 { lemma_no_drop(top(s), top(s).messages.len() as int); if i < wtoks(top(s)).len() { assert(wtoks(top(s))[i] == w_toks(s, e)[i]); } }
    else if w_checked(s, e) && s.cur.len() > 0 { let c = ctoks(top(s).bindings, e->Value_0); lemma_ctok_kinds(top(s).bindings, e->Value_0); if i < c.len() { assert(c[i] == w_toks(s, e)[i]); } }
}
proof fn lemma_no_drop_bindings(bs: Seq<(int, Seq<u8>)>)
    ensures forall|i: int| 0 <= i < woven_toks(bs).len() ==> #[trigger] woven_toks(bs)[i] is Woven
    decreases bs.len()
{ if bs.len() > 0 { lemma_no_drop_bindings(bs.skip(1)); } }
proof fn lemma_no_drop(t: Node, n: int)
    requires 0 <= n <= t.messages.len()
    ensures forall|i: int| 0 <= i < wtoks_upto(t, n).len() ==> !(#[trigger] wtoks_upto(t, n)[i] is Dropped), n == t.messages.len() ==> forall|i: int| 0 <= i < wtoks(t).len() ==> !(#[trigger] wtoks(t)[i] is Dropped)
    decreases t, n
{
    lemma_no_drop_bindings(t.bindings);
    if n > 0 { lemma_no_drop(t, n - 1); let c = t.messages[n - 1].1; lemma_no_drop(c, c.messages.len() as int); }
}
proof fn lemma_ctok_kinds(bs: Seq<(int, Seq<u8>)>, name: Seq<u8>)
    ensures forall|i: int| 0 <= i < ctoks(bs, name).len() ==> match #[trigger] ctoks(bs, name)[i] { Tok::Dropped(f, _) => pb_name(f) == name && !is_repeated(f), Tok::Woven(f, _) => pb_name(f) == name && is_repeated(f), _ => false }
    decreases bs.len()
{ if bs.len() > 0 { lemma_ctok_kinds(bs.skip(1), name); } }
// after a body value no binding of that name is left in its message
pub proof fn lemma_none_left(bs: Seq<(int, Seq<u8>)>, name: Seq<u8>)
    ensures forall|i: int| 0 <= i < kept(bs, name).len() ==> pb_name((#[trigger] kept(bs, name)[i]).0) != name
    decreases bs.len()
{
    if bs.len() > 0 {
        lemma_none_left(bs.skip(1), name);
        let r = kept(bs.skip(1), name);
        if name != pb_name(bs[0].0) { assert(kept(bs, name) == seq![bs[0]] + r); assert forall|i: int| 0 <= i < kept(bs, name).len() implies pb_name((#[trigger] kept(bs, name)[i]).0) != name by { if i > 0 { assert(kept(bs, name)[i] == r[i - 1]); } else { assert(kept(bs, name)[0] == bs[0]); } } }
    }
}
// the status: an invalid argument exactly when reporting is on and some body value clashed with a binding of its name
pub open spec fn clashes(s: WS, e: Evt) -> bool { w_checked(s, e) && s.cur.len() > 0 && clash(top(s).bindings, e->Value_0, body_piece(e->Value_1)) }
pub proof fn lemma_reported(report: bool, t: Seq<WS>, es: Seq<Evt>, n: int)
    requires wtrace(report, t, es), 0 <= n <= es.len()
    ensures if report && exists|i: int| 0 <= i < n && clashes(t[i], #[trigger] es[i]) { t[n].err.code == 3 } else { t[n].err == t[0].err }
    decreases n
{
    if n > 0 {
        lemma_reported(report, t, es, n - 1);
        assert(wstep(t[n - 1], report, es[n - 1], t[n]));
        if report && clashes(t[n - 1], es[n - 1]) {}
        else if exists|i: int| 0 <= i < n && clashes(t[i], #[trigger] es[i]) { let i = choose|i: int| 0 <= i < n && clashes(t[i], #[trigger] es[i]); if report { assert(i < n - 1); } }
    }
}
// equal integers, booleans and texts never clash; a binding that cannot be converted always does
pub proof fn lemma_clash_one(f: int, v: Seq<u8>, body: Piece)
    ensures clash(seq![(f, v)], pb_name(f), body) == (!is_repeated(f) && !same_value(body, Piece::Text(v)))
{ let s = seq![(f, v)]; assert(s.skip(1).len() == 0); assert(!clash(s.skip(1), pb_name(f), body)); }
