// ---- request paths (property C06) ----------------------------------------------------------------------------------
pub type Binding = C_VariableBinding;
pub type MD = C_PathMatcher_MethodData;
pub open spec fn cut_query(p: Seq<u8>) -> Seq<u8> { if find_from(p, 63, 0) < 0 { p } else { p.subrange(0, find_from(p, 63, 0)) } }
// the last ":" if it lies behind the last "/", or -1
pub open spec fn verb_colon(p: Seq<u8>) -> int {
    let c = rfind_to(p, 58, p.len() as int);
    let s = rfind_to(p, 47, p.len() as int);
    if s >= 0 && c > s { c } else { -1 }
}
pub open spec fn verb_text(p: Seq<u8>) -> Seq<u8> { p.subrange(verb_colon(p) + 1, p.len() as int) }
pub open spec fn has_verb(path: Seq<u8>, verbs: Set<Seq<u8>>, any: bool) -> bool {
    verb_colon(cut_query(path)) >= 0 && (any || verbs.contains(verb_text(cut_query(path))))
}
pub open spec fn req_verb(path: Seq<u8>, verbs: Set<Seq<u8>>, any: bool) -> Seq<u8> {
    if has_verb(path, verbs, any) { verb_text(cut_query(path)) } else { Seq::empty() }
}
pub open spec fn req_path(path: Seq<u8>, verbs: Set<Seq<u8>>, any: bool) -> Seq<u8> {
    if has_verb(path, verbs, any) { cut_query(path).subrange(0, verb_colon(cut_query(path))) } else { cut_query(path) }
}
pub open spec fn trim_empty(s: Path) -> Path decreases s.len() {
    if s.len() > 0 && s.last().len() == 0 { trim_empty(s.drop_last()) } else { s }
}
pub open spec fn trim_to(s: Path, n: int) -> Path decreases n { if 0 < n <= s.len() && s[n - 1].len() == 0 { trim_to(s, n - 1) } else { s.subrange(0, n) } }
pub proof fn lemma_trim(s: Path, n: int)
    requires 0 <= n <= s.len()
    ensures trim_to(s, n) == trim_empty(s.subrange(0, n))
    decreases n
{
    if n > 0 && s[n - 1].len() == 0 { lemma_trim(s, n - 1); assert(s.subrange(0, n).drop_last() =~= s.subrange(0, n - 1)); }
}
pub proof fn lemma_trim_all()
    ensures forall|s: Path, n: int| n == s.len() ==> #[trigger] trim_to(s, n) == trim_empty(s)
{
    assert forall|s: Path, n: int| n == s.len() implies #[trigger] trim_to(s, n) == trim_empty(s) by { lemma_trim(s, n); assert(s.subrange(0, n) =~= s); }
}
pub open spec fn req_parts(path: Seq<u8>, verbs: Set<Seq<u8>>, any: bool) -> Path {
    let p = req_path(path, verbs, any);
    if p.len() == 0 { Seq::empty() } else { trim_empty(split(p.subrange(1, p.len() as int), 47)) }
}
// ---- bindings (properties C04, C11) ----------------------------------------------------------------------------------
// a segment index of a variable: non-negative counts from the front, negative from the end
pub open spec fn abs_index(n: int, x: int) -> int { if x >= 0 { x } else { n + x + 1 } }
pub open spec fn bind_start(v: Var, n: int) -> int { abs_index(n, v.start_segment as int) }
pub open spec fn bind_end(v: Var, n: int) -> int { abs_index(n, v.end_segment as int) }
pub open spec fn in_range(v: Var, n: int) -> bool { 0 <= bind_start(v, n) <= bind_end(v, n) <= n }
pub open spec fn all_in_range(vs: Seq<Var>, n: int) -> bool { forall|k: int| 0 <= k < vs.len() ==> in_range(#[trigger] vs[k], n) }
pub open spec fn bind_mode(v: Var, n: int, mode: int) -> int { if v.has_wildcard_path || bind_end(v, n) - bind_start(v, n) > 1 { mode } else { 2 } }
// segments s..i decoded and joined by "/"
pub open spec fn joined(parts: Path, s: int, i: int, mode: int) -> Seq<u8> decreases i - s {
    if i <= s || s < 0 || i > parts.len() { Seq::empty() }
    else if i == s + 1 { decode(parts[s], mode, false) }
    else { joined(parts, s, i - 1, mode) + seq![47u8] + decode(parts[i - 1], mode, false) }
}
// the same followed by "/" when more segments follow
pub open spec fn joined_more(parts: Path, s: int, i: int, e: int, mode: int) -> Seq<u8> {
    if s < i < e { joined(parts, s, i, mode) + seq![47u8] } else { joined(parts, s, i, mode) }
}
// the arithmetic of segment positions in size_t
pub proof fn lemma_abs_index(n: int)
    requires 0 <= n <= max_size()
    ensures forall|x: int| -0x8000_0000 <= x < 0 && n + x + 1 >= 0 ==> #[trigger] wu64(wu64(n + wu64(x)) + 1) == n + x + 1,
{}
pub open spec fn path_binding(v: Var, parts: Path, mode: int) -> Binding {
    let n = parts.len() as int;
    C_VariableBinding { field_path: v.field_path, value: joined(parts, bind_start(v, n), bind_end(v, n), bind_mode(v, n, mode)) }
}
pub open spec fn path_bindings(vs: Seq<Var>, parts: Path, mode: int) -> Seq<Binding> { Seq::new(vs.len(), |k: int| path_binding(vs[k], parts, mode)) }
pub open spec fn q_name(p: Seq<u8>) -> Seq<u8> { p.subrange(0, find_from(p, 61, 0)) }
pub open spec fn q_binds(p: Seq<u8>, sys: Set<Seq<u8>>) -> bool { find_from(p, 61, 0) > 0 && !sys.contains(q_name(p)) }
pub open spec fn q_binding(p: Seq<u8>, plus: bool) -> Binding {
    C_VariableBinding { field_path: split(q_name(p), 46), value: decode(p.subrange(find_from(p, 61, 0) + 1, p.len() as int), 2, plus) }
}
// bindings of the first n pieces
pub open spec fn q_bindings_n(ps: Path, n: int, sys: Set<Seq<u8>>, plus: bool) -> Seq<Binding> decreases n {
    if n <= 0 || n > ps.len() { Seq::empty() } else {
        let r = q_bindings_n(ps, n - 1, sys, plus);
        if q_binds(ps[n - 1], sys) { r.push(q_binding(ps[n - 1], plus)) } else { r }
    }
}
pub open spec fn q_bindings(q: Seq<u8>, sys: Set<Seq<u8>>, plus: bool) -> Seq<Binding> { q_bindings_n(split(q, 38), split(q, 38).len() as int, sys, plus) }

// ---- the owned method records: pointers stored in the trie refer to them by address ------------------------------------
pub open spec fn heap_at(ms: Seq<Option<MD>>, i: int, a: int) -> bool { 0 <= i < ms.len() && ms[i] is Some && (ms[i]->0).addr_ == a }
pub open spec fn heap_has_C_PathMatcher_MethodData(ms: Seq<Option<MD>>, a: int) -> bool { a != 0 && exists|i: int| #[trigger] heap_at(ms, i, a) }
pub open spec fn heap_get_C_PathMatcher_MethodData(ms: Seq<Option<MD>>, a: int) -> MD { ms[choose|i: int| heap_at(ms, i, a)]->0 }
pub open spec fn addrs_C_PathMatcher_MethodData(ms: Seq<Option<MD>>) -> spec_fn(int) -> bool { |a: int| heap_has_C_PathMatcher_MethodData(ms, a) }
pub open spec fn uniq_addrs(ms: Seq<Option<MD>>) -> bool {
    forall|i: int, j: int| #![trigger ms[i], ms[j]] 0 <= i < j < ms.len() && ms[i] is Some && ms[j] is Some ==> (ms[i]->0).addr_ != (ms[j]->0).addr_
}
// contents without the address
pub open spec fn plain(m: MD) -> MD { C_PathMatcher_MethodData { addr_: 0, ..m } }

// ---- matching of a segment pattern (properties C07, C08) ---------------------------------------------------------------
pub open spec fn seg_matches(t: Seq<u8>, p: Seq<u8>) -> bool { t == star() || t == any_seg() || t == p }
// t[a..] matches parts[i..]: "**" takes one or more segments, or none when it is last and the request ends there
pub open spec fn matches(t: Path, a: int, parts: Path, i: int) -> bool decreases t.len() - a + parts.len() - i {
    if a < 0 || i < 0 || a > t.len() || i > parts.len() { false }
    else if a == t.len() { i == parts.len() }
    else if t[a] == star2() {
        (a == t.len() - 1 && i == parts.len()) || (i < parts.len() && (matches(t, a + 1, parts, i + 1) || matches(t, a, parts, i + 1)))
    }
    else { i < parts.len() && seg_matches(t[a], parts[i]) && matches(t, a + 1, parts, i + 1) }
}
pub open spec fn only_literals(t: Path) -> bool { forall|j: int| 0 <= j < t.len() ==> #[trigger] t[j] != star() && t[j] != star2() && t[j] != any_seg() }
pub open spec fn key_ok(k: Seq<u8>, key: Seq<u8>) -> bool { k == key || k == any_method() }

pub proof fn lemma_shift(t: Path, t2: Path, a: int, parts: Path, i: int)
    requires 0 <= a, t.len() == t2.len() + 1, forall|j: int| 0 <= j < t2.len() ==> #[trigger] t2[j] == t[j + 1]
    ensures matches(t, a + 1, parts, i) == matches(t2, a, parts, i)
    decreases t.len() - a + parts.len() - i
{
    if 0 <= i <= parts.len() && a < t2.len() {
        lemma_shift(t, t2, a + 1, parts, i + 1);
        assert(t2[a] == t[a + 1]);
        if t2[a] == star2() { lemma_shift(t, t2, a, parts, i + 1); }
    }
}
pub proof fn lemma_skip(t: Path, a: int, parts: Path, i: int, j: int)
    requires 0 <= a < t.len(), t[a] == star2(), 0 <= i < j <= parts.len(), matches(t, a + 1, parts, j)
    ensures matches(t, a, parts, i)
    decreases j - i
{ if i + 1 < j { lemma_skip(t, a, parts, i + 1, j); } }
pub proof fn lemma_unskip(t: Path, a: int, parts: Path, i: int) -> (j: int)
    requires 0 <= a < t.len(), t[a] == star2(), 0 <= i < parts.len(), matches(t, a, parts, i)
    ensures i < j <= parts.len(), matches(t, a + 1, parts, j)
    decreases parts.len() - i
{
    if matches(t, a + 1, parts, i + 1) { i + 1 }
    else if i + 1 < parts.len() { lemma_unskip(t, a, parts, i + 1) }
    else { assert(matches(t, a, parts, i + 1)); parts.len() as int }
}
pub open spec fn cons(k: Seq<u8>, t: Path) -> Path { seq![k] + t }
pub proof fn lemma_entry_cons(n: Node, k: Seq<u8>, t: Path, key: Seq<u8>)
    ensures cons(k, t).len() == t.len() + 1, cons(k, t)[0] == k, cons(k, t).drop_first() =~= t, forall|j: int| 0 <= j < t.len() ==> #[trigger] t[j] == cons(k, t)[j + 1],
        has_child(n, k) ==> entry(n, cons(k, t), key) == entry(child(n, k), t, key),
        !has_child(n, k) ==> entry(n, cons(k, t), key) is None,
{ assert(cons(k, t).drop_first() =~= t); }

// C07: what a lookup finds is stored for a pattern that matches
pub struct Hit { pub t: Path, pub key: Seq<u8>, pub at: int }
pub open spec fn hit_ok(n: Node, parts: Path, i: int, key: Seq<u8>, lr: LR, h: Hit) -> bool {
    entry(n, h.t, h.key) == Option::Some(lr) && key_ok(h.key, key) && i <= h.at <= parts.len() && (h.at == i || n.wildcard_) && matches(h.t, 0, parts, h.at)
}
proof fn sound_child(n: Node, k: Seq<u8>, parts: Path, i: int, key: Seq<u8>) -> (h: Hit)
    requires node_ok(n), 0 <= i < parts.len(), seg_matches(k, parts[i]) || k == star2(), best_child(n, k, parts, i, parts.len() as int, key) is Some
    ensures hit_ok(n, parts, i, key, best_child(n, k, parts, i, parts.len() as int, key)->0, h)
    decreases parts.len() - i, 0int
{
    lemma_ok_child(n, k);
    let g = sound(child(n, k), parts, i + 1, key);
    lemma_entry_cons(n, k, g.t, g.key);
    let t = cons(k, g.t);
    lemma_shift(t, g.t, 0, parts, g.at);
    if k == star2() { lemma_skip(t, 0, parts, i, g.at); } else { assert(matches(t, 0, parts, i)); }
    Hit { t: t, key: g.key, at: i }
}
proof fn sound_here(n: Node, key: Seq<u8>) -> (k: Seq<u8>)
    requires result_for(n, key) is Some
    ensures entry(n, Seq::empty(), k) == result_for(n, key), key_ok(k, key)
{
    assert(find(n, Seq::empty()) == Option::Some(n));
    if n.result_map_.contains_key(key) { key } else { any_method() }
}
pub proof fn sound(n: Node, parts: Path, i: int, key: Seq<u8>) -> (h: Hit)
    requires node_ok(n), 0 <= i <= parts.len(), best(n, parts, i, parts.len() as int, key) is Some
    ensures hit_ok(n, parts, i, key, best(n, parts, i, parts.len() as int, key)->0, h)
    decreases parts.len() - i, 1int
{
    let end = parts.len() as int;
    if i >= end {
        if result_for(n, key) is Some {
            let k = sound_here(n, key);
            Hit { t: Seq::empty(), key: k, at: i }
        } else {
            let k = sound_here(child(n, star2()), key);
            lemma_entry_cons(n, star2(), Seq::empty(), k);
            Hit { t: cons(star2(), Seq::empty()), key: k, at: i }
        }
    } else if best_child(n, parts[i], parts, i, end, key) is Some { sound_child(n, parts[i], parts, i, key) }
    else if n.wildcard_ {
        sound(n, parts, i + 1, key)
    }
    else if best_child(n, any_seg(), parts, i, end, key) is Some { sound_child(n, any_seg(), parts, i, key) }
    else if best_child(n, star(), parts, i, end, key) is Some { sound_child(n, star(), parts, i, key) }
    else { sound_child(n, star2(), parts, i, key) }
}
// C08: a lookup finds something whenever a stored pattern matches
pub proof fn lemma_complete(n: Node, parts: Path, i: int, key: Seq<u8>, h: Hit)
    requires node_ok(n), 0 <= i <= parts.len(), entry(n, h.t, h.key) is Some, key_ok(h.key, key), i <= h.at <= parts.len(), h.at == i || n.wildcard_,
        matches(h.t, 0, parts, h.at), parts_ok(h.t), n.wildcard_ ==> only_literals(h.t)
    ensures best(n, parts, i, parts.len() as int, key) is Some
    decreases parts.len() - i
{
    let end = parts.len() as int;
    let t = h.t;
    if t.len() > 0 {
        let k = t[0];
        let d = t.drop_first();
        assert(t =~= cons(k, d));
        lemma_entry_cons(n, k, d, h.key);
        lemma_ok_child(n, k);
        assert(parts_ok(d)) by {
            assert forall|x: int, y: int| #![trigger d[x], d[y]] 0 <= x < y < d.len() && d[x] == star2() implies d[y] != star() && d[y] != star2() && d[y] != any_seg() by {
                assert(d[x] == t[x + 1]); assert(d[y] == t[y + 1]);
            }
        }
        assert(k == star2() ==> only_literals(d)) by {
            if k == star2() { assert forall|j: int| 0 <= j < d.len() implies #[trigger] d[j] != star() && d[j] != star2() && d[j] != any_seg() by { assert(d[j] == t[j + 1]); assert(t[0] == star2()); } }
        }
        if i < end && h.at == i {
            assert(!(n.wildcard_ && (k == star2() || k == star() || k == any_seg())));
            let j = if k == star2() { lemma_unskip(t, 0, parts, i) } else { i + 1 };
            lemma_shift(t, d, 0, parts, j);
            lemma_complete(child(n, k), parts, i + 1, key, Hit { t: d, key: h.key, at: j });
            assert(best_child(n, k, parts, i, end, key) is Some);
        }
        if i >= end {
            assert(k == star2() && t.len() == 1);
            assert(d =~= Seq::<Seq<u8>>::empty());
        }
    } else {
        assert(t =~= Seq::<Seq<u8>>::empty());
        assert(find(n, t) == Option::Some(n));
    }
    if i < end && h.at > i { lemma_complete(n, parts, i + 1, key, h); }
}
// C08: the answer depends only on what is stored, not on how the tries came about
pub open spec fn answer(ms: Seq<Option<MD>>, o: Option<LR>) -> Option<Option<MD>> {
    match o { Option::None => Option::None, Option::Some(l) => if l.is_multiple { Option::Some(Option::None) }
        else { Option::Some(Option::Some(plain(heap_get_C_PathMatcher_MethodData(ms, l.data)))) } }
}
pub open spec fn route(n: Node, ms: Seq<Option<MD>>, t: Path, key: Seq<u8>) -> Option<Option<MD>> { answer(ms, entry(n, t, key)) }
pub open spec fn same_routes(n1: Node, m1: Seq<Option<MD>>, n2: Node, m2: Seq<Option<MD>>) -> bool {
    forall|t: Path, key: Seq<u8>| #![trigger entry(n1, t, key)] #![trigger entry(n2, t, key)] route(n1, m1, t, key) == route(n2, m2, t, key)
}
proof fn lemma_same_child(n1: Node, m1: Seq<Option<MD>>, n2: Node, m2: Seq<Option<MD>>, k: Seq<u8>, parts: Path, i: int, key: Seq<u8>)
    requires node_ok(n1), node_ok(n2), same_routes(n1, m1, n2, m2), 0 <= i < parts.len()
    ensures answer(m1, best_child(n1, k, parts, i, parts.len() as int, key)) == answer(m2, best_child(n2, k, parts, i, parts.len() as int, key))
    decreases parts.len() - i, 0int
{
    lemma_ok_child(n1, k); lemma_ok_child(n2, k);
    if has_child(n1, k) && has_child(n2, k) {
        assert(same_routes(child(n1, k), m1, child(n2, k), m2)) by {
            assert forall|t: Path, q: Seq<u8>| #![trigger entry(child(n1, k), t, q)] #![trigger entry(child(n2, k), t, q)] route(child(n1, k), m1, t, q) == route(child(n2, k), m2, t, q) by {
                lemma_entry_cons(n1, k, t, q); lemma_entry_cons(n2, k, t, q);
                assert(route(n1, m1, cons(k, t), q) == route(n2, m2, cons(k, t), q));
            }
        }
        lemma_same(child(n1, k), m1, child(n2, k), m2, parts, i + 1, key);
    } else if has_child(n1, k) && best_child(n1, k, parts, i, parts.len() as int, key) is Some {
        let h = sound(child(n1, k), parts, i + 1, key);
        lemma_entry_cons(n1, k, h.t, h.key); lemma_entry_cons(n2, k, h.t, h.key);
        assert(route(n1, m1, cons(k, h.t), h.key) == route(n2, m2, cons(k, h.t), h.key));
    } else if has_child(n2, k) && best_child(n2, k, parts, i, parts.len() as int, key) is Some {
        let h = sound(child(n2, k), parts, i + 1, key);
        lemma_entry_cons(n1, k, h.t, h.key); lemma_entry_cons(n2, k, h.t, h.key);
        assert(route(n1, m1, cons(k, h.t), h.key) == route(n2, m2, cons(k, h.t), h.key));
    }
}
proof fn lemma_same_here(n1: Node, m1: Seq<Option<MD>>, n2: Node, m2: Seq<Option<MD>>, key: Seq<u8>)
    requires same_routes(n1, m1, n2, m2)
    ensures answer(m1, result_for(n1, key)) == answer(m2, result_for(n2, key))
{
    let e = Seq::<Seq<u8>>::empty();
    assert(find(n1, e) == Option::Some(n1)); assert(find(n2, e) == Option::Some(n2));
    assert(route(n1, m1, e, key) == route(n2, m2, e, key));
    assert(route(n1, m1, e, any_method()) == route(n2, m2, e, any_method()));
    assert(entry(n1, e, key) is Some == entry(n2, e, key) is Some);
}
pub proof fn lemma_same(n1: Node, m1: Seq<Option<MD>>, n2: Node, m2: Seq<Option<MD>>, parts: Path, i: int, key: Seq<u8>)
    requires node_ok(n1), node_ok(n2), n1.wildcard_ == n2.wildcard_, same_routes(n1, m1, n2, m2), 0 <= i <= parts.len()
    ensures answer(m1, best(n1, parts, i, parts.len() as int, key)) == answer(m2, best(n2, parts, i, parts.len() as int, key))
    decreases parts.len() - i, 1int
{
    let end = parts.len() as int;
    if i < end {
        lemma_same_child(n1, m1, n2, m2, parts[i], parts, i, key);
        lemma_same_child(n1, m1, n2, m2, any_seg(), parts, i, key);
        lemma_same_child(n1, m1, n2, m2, star(), parts, i, key);
        lemma_same_child(n1, m1, n2, m2, star2(), parts, i, key);
        lemma_same(n1, m1, n2, m2, parts, i + 1, key);
    } else {
        lemma_same_here(n1, m1, n2, m2, key);
        let k = star2();
        lemma_ok_child(n1, k); lemma_ok_child(n2, k);
        let e = Seq::<Seq<u8>>::empty();
        lemma_entry_cons(n1, k, e, key); lemma_entry_cons(n2, k, e, key); lemma_entry_cons(n1, k, e, any_method()); lemma_entry_cons(n2, k, e, any_method());
        assert(route(n1, m1, cons(k, e), key) == route(n2, m2, cons(k, e), key));
        assert(route(n1, m1, cons(k, e), any_method()) == route(n2, m2, cons(k, e), any_method()));
        if has_child(n1, k) { assert(find(child(n1, k), e) == Option::Some(child(n1, k))); }
        if has_child(n2, k) { assert(find(child(n2, k), e) == Option::Some(child(n2, k))); }
    }
}

// ---- positions of variables (property C04) -----------------------------------------------------------------------------
// where boundary k of the template falls in a request of n segments: w is the index of the "**" (or the length)
pub open spec fn pos_in(k: int, n: int, len: int, w: int) -> int { if k <= w { k } else { n - len + k } }
// a variable as written: it covers segments start..end of the template
pub open spec fn raw_fits(v: Var, segs: Path) -> bool {
    0 <= v.start_segment < v.end_segment <= segs.len()
    && v.has_wildcard_path == (exists|j: int| v.start_segment <= j < v.end_segment && #[trigger] segs[j] == star2())
}
pub open spec fn open_fits(v: Var, segs: Path) -> bool {
    0 <= v.start_segment <= segs.len() && v.has_wildcard_path == (exists|j: int| v.start_segment <= j < segs.len() && #[trigger] segs[j] == star2())
}
pub open spec fn closed_n(vars: Seq<Var>, inv: bool) -> int { if inv { vars.len() - 1 } else { vars.len() as int } }
pub open spec fn gvars(segs: Path, vars: Seq<Var>, inv: bool) -> bool {
    (inv ==> vars.len() > 0 && open_fits(vars.last(), segs)) && (forall|k: int| 0 <= k < closed_n(vars, inv) ==> raw_fits(#[trigger] vars[k], segs))
}
pub open spec fn grows(segs: Path, r: PR, i: int) -> bool {
    segs.len() < r.segs.len() && (forall|j: int| 0 <= j < segs.len() ==> #[trigger] r.segs[j] == segs[j]) && r.segs.len() <= r.pos && r.pos > i
}
proof fn lemma_raw_grow(v: Var, segs: Path, segs2: Path)
    requires raw_fits(v, segs), segs.len() <= segs2.len(), forall|j: int| 0 <= j < segs.len() ==> #[trigger] segs2[j] == segs[j]
    ensures raw_fits(v, segs2)
{
    if v.has_wildcard_path {
        let j = choose|j: int| v.start_segment <= j < v.end_segment && #[trigger] segs[j] == star2();
        assert(segs2[j] == star2());
    } else {
        assert forall|j: int| v.start_segment <= j < v.end_segment implies #[trigger] segs2[j] != star2() by { assert(segs[j] != star2()); }
    }
}
// adding one segment
proof fn lemma_gvars_push(segs: Path, vars: Seq<Var>, inv: bool, x: Seq<u8>, v2: Seq<Var>)
    requires gvars(segs, vars, inv), v2 == (if inv && x == star2() { set_last(vars, C_HttpTemplate_Variable { has_wildcard_path: true, ..vars.last() }) } else { vars })
    ensures gvars(segs.push(x), v2, inv)
{
    let s2 = segs.push(x);
    assert forall|k: int| 0 <= k < closed_n(v2, inv) implies raw_fits(#[trigger] v2[k], s2) by { assert(v2[k] == vars[k]); lemma_raw_grow(vars[k], segs, s2); }
    if inv {
        let v = vars.last();
        let w = v2.last();
        assert(w.start_segment == v.start_segment);
        if x == star2() { assert(s2[segs.len() as int] == star2()); }
        else if v.has_wildcard_path { let j = choose|j: int| v.start_segment <= j < segs.len() && #[trigger] segs[j] == star2(); assert(s2[j] == star2()); }
        else { assert forall|j: int| v.start_segment <= j < s2.len() implies #[trigger] s2[j] != star2() by { if j < segs.len() { assert(segs[j] != star2()); } } }
    }
}
pub proof fn lemma_g_segment(s: Seq<u8>, i: int, segs: Path, vars: Seq<Var>, inv: bool)
    requires gvars(segs, vars, inv), segs.len() <= i <= s.len(), s.len() < 0x7fff_ffff
    ensures ({ let r = p_segment(s, i, segs, vars, inv); r.ok ==> gvars(r.segs, r.vars, r.inv) && r.inv == inv && grows(segs, r, i) && r.pos <= s.len() && r.vars.len() >= vars.len() }),
    decreases s.len() - i, 1int
{
    if i < s.len() {
        if s[i] == 42 {
            if at(s, i + 1, 42) { if !(inv && vars.len() == 0) { lemma_gvars_push(segs, vars, inv, star2(), p_segment(s, i, segs, vars, inv).vars); } }
            else { assert(star().len() == 1 && star2().len() == 2); lemma_gvars_push(segs, vars, inv, star(), vars); }
        } else if s[i] == 123 { lemma_g_variable(s, i, segs, vars, inv); }
        else {
            lemma_lit_end(s, i);
            let x = s.subrange(i, lit_end(s, i));
            if lit_end(s, i) > i { assert(x[0] == s[i]); assert(star2()[0] == 42); lemma_gvars_push(segs, vars, inv, x, vars); }
        }
    }
}
pub proof fn lemma_g_variable(s: Seq<u8>, i: int, segs: Path, vars: Seq<Var>, inv: bool)
    requires gvars(segs, vars, inv), segs.len() <= i <= s.len(), s.len() < 0x7fff_ffff
    ensures ({ let r = p_variable(s, i, segs, vars, inv); r.ok ==> gvars(r.segs, r.vars, r.inv) && r.inv == inv && grows(segs, r, i) && r.pos <= s.len() && r.vars.len() >= vars.len() }),
    decreases s.len() - i, 0int
{
    if at(s, i, 123) && !inv {
        lemma_path(s, i + 1, Seq::empty());
        let f = p_path(s, i + 1, Seq::empty());
        if f.ok && f.pos > i {
            let v = C_HttpTemplate_Variable { start_segment: ws32(segs.len() as int) as i32, end_segment: 0i32, field_path: f.ids, has_wildcard_path: false };
            let v1 = vars.push(v);
            assert(gvars(segs, v1, true)) by {
                assert(v1.last() == v);
                assert forall|j: int| v.start_segment <= j < segs.len() implies #[trigger] segs[j] != star2() by {}
            }
            if at(s, f.pos, 61) { lemma_g_segments(s, f.pos + 1, segs, v1, true); lemma_inner(s, f.pos + 1, segs, v1); }
            else { assert(star().len() == 1 && star2().len() == 2); lemma_gvars_push(segs, v1, true, star(), v1); }
            let r = if at(s, f.pos, 61) { p_segments(s, f.pos + 1, segs, v1, true) } else { PR { ok: true, pos: f.pos, segs: segs.push(star()), vars: v1, inv: true } };
            let q = p_variable(s, i, segs, vars, inv);
            if q.ok {
                let w = q.vars.last();
                assert forall|k: int| 0 <= k < q.vars.len() implies raw_fits(#[trigger] q.vars[k], q.segs) by {
                    if k < q.vars.len() - 1 { assert(q.vars[k] == r.vars[k]); }
                    else {
                        assert(w.start_segment == r.vars.last().start_segment && w.has_wildcard_path == r.vars.last().has_wildcard_path);
                        assert(w.end_segment == r.segs.len());
                    }
                }
            }
        }
    }
}
pub proof fn lemma_g_segments(s: Seq<u8>, i: int, segs: Path, vars: Seq<Var>, inv: bool)
    requires gvars(segs, vars, inv), segs.len() <= i <= s.len(), s.len() < 0x7fff_ffff
    ensures ({ let r = p_segments(s, i, segs, vars, inv); r.ok ==> gvars(r.segs, r.vars, r.inv) && r.inv == inv && grows(segs, r, i) && r.pos <= s.len() && r.vars.len() >= vars.len() }),
    decreases s.len() - i, 2int
{
    lemma_g_segment(s, i, segs, vars, inv);
    let r = p_segment(s, i, segs, vars, inv);
    if r.ok && at(s, r.pos, 47) && r.pos > i {
        lemma_g_segments(s, r.pos + 1, r.segs, r.vars, r.inv);
        let q = p_segments(s, r.pos + 1, r.segs, r.vars, r.inv);
        if q.ok { assert forall|j: int| 0 <= j < segs.len() implies #[trigger] q.segs[j] == segs[j] by { assert(r.segs[j] == segs[j]); } }
    }
}
// the variables of an accepted template as written
pub open spec fn raw_vars(t: Seq<u8>) -> Seq<Var> { if t == seq![47u8] { Seq::empty() } else { p_template(t).vars } }
pub proof fn lemma_raw_vars(t: Seq<u8>)
    requires tmpl_ok(t), t.len() < 0x7fff_ffff
    ensures tmpl_segs(t).len() <= t.len(), forall|k: int| 0 <= k < raw_vars(t).len() ==> raw_fits(#[trigger] raw_vars(t)[k], tmpl_segs(t)),
        tmpl_vars(t) =~= post_vars(raw_vars(t), tmpl_segs(t)), parts_ok(tmpl_segs(t)),
{
    if t != seq![47u8] {
        assert(gvars(Seq::empty(), Seq::empty(), false));
        lemma_g_segments(t, 1, Seq::empty(), Seq::empty(), false);
    }
}
pub proof fn lemma_wild_pos(segs: Path, i: int)
    requires 0 <= i <= segs.len()
    ensures i <= wild_pos(segs, i) <= segs.len(), wild_pos(segs, i) < segs.len() ==> segs[wild_pos(segs, i)] == star2(),
        forall|j: int| i <= j < wild_pos(segs, i) ==> #[trigger] segs[j] != star2(),
    decreases segs.len() - i
{ if i < segs.len() && segs[i] != star2() { lemma_wild_pos(segs, i + 1); } }
// a stored variable of the pattern t
pub open spec fn var_fits(v: Var, t: Path) -> bool {
    let len = t.len() as int;
    let w = wild_pos(t, 0);
    if v.start_segment >= 0 && v.end_segment >= 0 { v.start_segment < v.end_segment <= w && !v.has_wildcard_path }
    else if v.start_segment >= 0 { w < len && v.start_segment <= w && w < v.end_segment + len + 1 && v.has_wildcard_path }
    else { w < len && w < v.start_segment + len + 1 && v.start_segment < v.end_segment < 0 && !v.has_wildcard_path }
}
pub open spec fn vars_fit(vs: Seq<Var>, t: Path) -> bool { forall|k: int| 0 <= k < vs.len() ==> var_fits(#[trigger] vs[k], t) }
proof fn lemma_post_fits(v: Var, t: Path)
    requires raw_fits(v, t), parts_ok(t), t.len() < 0x7fff_ffff
    ensures var_fits(post_var(v, t), t)
{
    lemma_wild_pos(t, 0);
    lemma_rel(t.len() as int);
    let w = wild_pos(t, 0);
    if v.start_segment > w {
        if v.has_wildcard_path { let j = choose|j: int| v.start_segment <= j < v.end_segment && #[trigger] t[j] == star2(); assert(t[w] == star2() && t[j] == star2()); }
    } else if v.has_wildcard_path {
        let j = choose|j: int| v.start_segment <= j < v.end_segment && #[trigger] t[j] == star2();
        assert(w <= j);
    } else {
        assert(w < t.len() && v.end_segment > w ==> t[w] != star2());
    }
}
pub proof fn lemma_tmpl_fits(t: Seq<u8>)
    requires tmpl_ok(t), t.len() < 0x7fff_ffff
    ensures vars_fit(tmpl_vars(t), tmpl_segs(t)), parts_ok(tmpl_segs(t)), tmpl_segs(t).len() <= t.len()
{
    lemma_raw_vars(t);
    assert forall|k: int| 0 <= k < tmpl_vars(t).len() implies var_fits(#[trigger] tmpl_vars(t)[k], tmpl_segs(t)) by { lemma_post_fits(raw_vars(t)[k], tmpl_segs(t)); }
}
// a pattern whose only "**" is at w (or nowhere) lines up with the request segment by segment
pub open spec fn aligned(t: Path, parts: Path) -> bool {
    let len = t.len() as int; let n = parts.len() as int; let w = wild_pos(t, 0);
    (w == len ==> n == len) && (w < len ==> n >= len || (n == len - 1 && w == len - 1))
    && (forall|k: int| 0 <= k < len && k != w ==> seg_matches(#[trigger] t[k], parts[pos_in(k, n, len, w)]))
}
proof fn lemma_align_tail(t: Path, a: int, parts: Path, i: int)
    requires 0 <= a <= t.len(), 0 <= i <= parts.len(), matches(t, a, parts, i), forall|k: int| a <= k < t.len() ==> #[trigger] t[k] != star2()
    ensures parts.len() - i == t.len() - a, forall|k: int| a <= k < t.len() ==> seg_matches(#[trigger] t[k], parts[k - a + i])
    decreases t.len() - a
{ if a < t.len() { lemma_align_tail(t, a + 1, parts, i + 1); } }
proof fn lemma_align_head(t: Path, a: int, parts: Path)
    requires 0 <= a <= wild_pos(t, 0), a <= parts.len(), matches(t, a, parts, a), parts_ok(t)
    ensures ({ let len = t.len() as int; let n = parts.len() as int; let w = wild_pos(t, 0);
        (w == len ==> n == len) && (w < len ==> n >= len || (n == len - 1 && w == len - 1))
        && (forall|k: int| a <= k < len && k != w ==> seg_matches(#[trigger] t[k], parts[pos_in(k, n, len, w)])) })
    decreases t.len() - a
{
    lemma_wild_pos(t, 0);
    let w = wild_pos(t, 0);
    if a < w { lemma_align_head(t, a + 1, parts); }
    else if a < t.len() {
        assert(t[a] == star2());
        assert forall|k: int| a + 1 <= k < t.len() implies #[trigger] t[k] != star2() by { assert(t[a] == star2()); }
        if a == parts.len() { assert(a == t.len() - 1); }
        else { let j = lemma_unskip(t, a, parts, a); lemma_align_tail(t, a + 1, parts, j); }
    }
}
pub proof fn lemma_aligned(t: Path, parts: Path)
    requires matches(t, 0, parts, 0), parts_ok(t)
    ensures aligned(t, parts)
{ lemma_wild_pos(t, 0); lemma_align_head(t, 0, parts); }
pub proof fn lemma_fits_range(vs: Seq<Var>, t: Path, parts: Path)
    requires vars_fit(vs, t), aligned(t, parts)
    ensures all_in_range(vs, parts.len() as int)
{ lemma_wild_pos(t, 0); }
// C04: the request segments bound to a variable are the ones matched by the template segments it was written around
pub proof fn lemma_cover(t: Seq<u8>, parts: Path)
    requires tmpl_ok(t), t.len() < 0x7fff_ffff, matches(tmpl_segs(t), 0, parts, 0)
    ensures aligned(tmpl_segs(t), parts), tmpl_vars(t).len() == raw_vars(t).len(),
        forall|k: int| 0 <= k < raw_vars(t).len() ==> ({
            let v = #[trigger] raw_vars(t)[k]; let p = tmpl_vars(t)[k]; let n = parts.len() as int; let len = tmpl_segs(t).len() as int; let w = wild_pos(tmpl_segs(t), 0);
            raw_fits(v, tmpl_segs(t)) && p.field_path == v.field_path && p.has_wildcard_path == v.has_wildcard_path
            && bind_start(p, n) == pos_in(v.start_segment as int, n, len, w) && bind_end(p, n) == pos_in(v.end_segment as int, n, len, w) }),
{
    let segs = tmpl_segs(t);
    let w = wild_pos(segs, 0);
    lemma_raw_vars(t);
    lemma_aligned(segs, parts);
    lemma_wild_pos(segs, 0);
    lemma_rel(segs.len() as int);
    assert forall|k: int| 0 <= k < raw_vars(t).len() implies ({
        let v = #[trigger] raw_vars(t)[k]; let p = tmpl_vars(t)[k]; let n = parts.len() as int; let len = segs.len() as int;
        raw_fits(v, segs) && p.field_path == v.field_path && p.has_wildcard_path == v.has_wildcard_path
            && bind_start(p, n) == pos_in(v.start_segment as int, n, len, w) && bind_end(p, n) == pos_in(v.end_segment as int, n, len, w) }) by {
        let v = raw_vars(t)[k];
        let p = tmpl_vars(t)[k];
        assert(p == post_var(v, segs));
        lemma_post_fits(v, segs);
        if v.start_segment <= w && !v.has_wildcard_path { assert(w < segs.len() && v.end_segment > w ==> segs[w] != star2()); }
    }
}

// ---- the routing table -------------------------------------------------------------------------------------------------
pub open spec fn entry_ok(n: Node, ms: Seq<Option<MD>>, t: Path, key: Seq<u8>) -> bool {
    entry(n, t, key) is Some ==> parts_ok(t) && (!(entry(n, t, key)->0).is_multiple ==>
        heap_has_C_PathMatcher_MethodData(ms, (entry(n, t, key)->0).data) && vars_fit(heap_get_C_PathMatcher_MethodData(ms, (entry(n, t, key)->0).data).variables, t))
}
pub open spec fn table_ok(root: Option<Node>, ms: Seq<Option<MD>>) -> bool {
    root is Some ==> node_ok(root->0) && !(root->0).wildcard_ && uniq_addrs(ms) && (forall|t: Path, key: Seq<u8>| #![trigger entry(root->0, t, key)] entry_ok(root->0, ms, t, key))
}
pub open spec fn found(root: Option<Node>, ms: Seq<Option<MD>>, parts: Path, key: Seq<u8>) -> Option<Option<MD>> {
    if root is Some { answer(ms, best(root->0, parts, 0, parts.len() as int, key)) } else { Option::None }
}
// the method record a lookup returns, if any
pub open spec fn hit(o: Option<Option<MD>>) -> bool { o is Some && o->0 is Some }
pub open spec fn hit_md(o: Option<Option<MD>>) -> MD { o->0->0 }
pub proof fn lemma_lookup(root: Node, ms: Seq<Option<MD>>, parts: Path, key: Seq<u8>)
    requires table_ok(Option::Some(root), ms)
    ensures ({ let b = best(root, parts, 0, parts.len() as int, key);
        b is Some ==> (b->0).data != 0 && (!(b->0).is_multiple ==> heap_has_C_PathMatcher_MethodData(ms, (b->0).data)
            && all_in_range(heap_get_C_PathMatcher_MethodData(ms, (b->0).data).variables, parts.len() as int)) }),
{
    let b = best(root, parts, 0, parts.len() as int, key);
    if b is Some {
        lemma_best_nonnull(root, parts, 0, parts.len() as int, key);
        let h = sound(root, parts, 0, key);
        assert(entry_ok(root, ms, h.t, h.key));
        if !(b->0).is_multiple {
            lemma_aligned(h.t, parts);
            lemma_fits_range(heap_get_C_PathMatcher_MethodData(ms, (b->0).data).variables, h.t, parts);
        }
    }
}
proof fn lemma_heap_push(ms: Seq<Option<MD>>, md: MD)
    requires uniq_addrs(ms), md.addr_ != 0, !heap_has_C_PathMatcher_MethodData(ms, md.addr_)
    ensures uniq_addrs(ms.push(Option::Some(md))), heap_has_C_PathMatcher_MethodData(ms.push(Option::Some(md)), md.addr_),
        heap_get_C_PathMatcher_MethodData(ms.push(Option::Some(md)), md.addr_) == md,
        forall|a: int| heap_has_C_PathMatcher_MethodData(ms, a) ==> #[trigger] heap_has_C_PathMatcher_MethodData(ms.push(Option::Some(md)), a)
            && heap_get_C_PathMatcher_MethodData(ms.push(Option::Some(md)), a) == heap_get_C_PathMatcher_MethodData(ms, a),
{
    let m2 = ms.push(Option::Some(md));
    assert forall|i: int, j: int| #![trigger m2[i], m2[j]] 0 <= i < j < m2.len() && m2[i] is Some && m2[j] is Some implies (m2[i]->0).addr_ != (m2[j]->0).addr_ by {
        assert(m2[i] == ms[i]);
        if j == ms.len() { if (ms[i]->0).addr_ == md.addr_ { assert(heap_at(ms, i, md.addr_)); } } else { assert(m2[j] == ms[j]); }
    }
    assert(heap_at(m2, ms.len() as int, md.addr_));
    let x = choose|i: int| heap_at(m2, i, md.addr_);
    if x != ms.len() { assert(m2[x] == ms[x]); assert(heap_at(ms, x, md.addr_)); }
    assert forall|a: int| heap_has_C_PathMatcher_MethodData(ms, a) implies #[trigger] heap_has_C_PathMatcher_MethodData(m2, a)
            && heap_get_C_PathMatcher_MethodData(m2, a) == heap_get_C_PathMatcher_MethodData(ms, a) by {
        let i = choose|i: int| heap_at(ms, i, a);
        assert(heap_at(m2, i, a));
        let j = choose|j: int| heap_at(m2, j, a);
        assert(heap_at(m2, j, a));
        if j != i { assert(m2[i] is Some && m2[j] is Some); if i < j { assert((m2[i]->0).addr_ != (m2[j]->0).addr_); } else { assert((m2[j]->0).addr_ != (m2[i]->0).addr_); } }
    }
}
// what a registration of a valid template does to the routes (properties C09, C10)
pub open spec fn route_of(root: Option<Node>, ms: Seq<Option<MD>>, t: Path, key: Seq<u8>) -> Option<Option<MD>> { if root is Some { route(root->0, ms, t, key) } else { Option::None } }
pub open spec fn route_added(old: Option<Option<MD>>, md: MD) -> Option<Option<MD>> { if old is None { Option::Some(Option::Some(md)) } else { Option::Some(Option::None) } }
pub open spec fn others_same(r1: Option<Node>, m1: Seq<Option<MD>>, r2: Option<Node>, m2: Seq<Option<MD>>, t: Path, key: Seq<u8>) -> bool {
    forall|t2: Path, k2: Seq<u8>| (t2 != t || k2 != key) ==> #[trigger] route_of(r2, m2, t2, k2) == route_of(r1, m1, t2, k2)
}
pub open spec fn md_of(m: int, t: Seq<u8>, body: Seq<u8>, sys: Set<Seq<u8>>) -> MD {
    C_PathMatcher_MethodData { addr_: 0, method: m, variables: tmpl_vars(t), body_field_path: body, system_query_parameter_names: sys }
}
pub open spec fn inserted(n: Node, ms: Seq<Option<MD>>, n2: Node, ms2: Seq<Option<MD>>, t: Path, key: Seq<u8>, md: MD) -> bool {
    node_ok(n2) && !n2.wildcard_ && ins_frame(n, n2, t, key) && entry(n2, t, key) is Some && ((entry(n2, t, key)->0).is_multiple <==> entry(n, t, key) is Some)
    && ((ms2 == ms && entry(n, t, key) is Some) || (ms2.len() == ms.len() + 1 && ms2.last() is Some && ms2 =~= ms.push(ms2.last()) && plain(ms2.last()->0) == md
        && (ms2.last()->0).addr_ != 0 && (ms2.last()->0).addr_ == (entry(n2, t, key)->0).data && !heap_has_C_PathMatcher_MethodData(ms, (ms2.last()->0).addr_)))
}
pub proof fn lemma_register(n: Node, ms: Seq<Option<MD>>, n2: Node, ms2: Seq<Option<MD>>, t: Path, key: Seq<u8>, md: MD)
    ensures table_ok(Option::Some(n), ms) && parts_ok(t) && vars_fit(md.variables, t) && inserted(n, ms, n2, ms2, t, key, md) ==>
        table_ok(Option::Some(n2), ms2) && route(n2, ms2, t, key) == route_added(route(n, ms, t, key), md)
        && others_same(Option::Some(n), ms, Option::Some(n2), ms2, t, key),
{
    if table_ok(Option::Some(n), ms) && parts_ok(t) && vars_fit(md.variables, t) && inserted(n, ms, n2, ms2, t, key, md) {
        let grown = ms2 != ms;
        if grown { lemma_heap_push(ms, ms2.last()->0); assert(ms2 == ms.push(Option::Some(ms2.last()->0))); }
        assert(uniq_addrs(ms2));
        assert forall|t2: Path, k2: Seq<u8>| #![trigger entry(n2, t2, k2)] entry_ok(n2, ms2, t2, k2) && ((t2 != t || k2 != key) ==> route(n2, ms2, t2, k2) == route(n, ms, t2, k2)) by {
            assert(entry_ok(n, ms, t2, k2));
            if t2 != t || k2 != key {
                assert(entry(n2, t2, k2) == entry(n, t2, k2));
                if entry(n, t2, k2) is Some && !(entry(n, t2, k2)->0).is_multiple { assert(heap_has_C_PathMatcher_MethodData(ms2, (entry(n, t2, k2)->0).data)); }
            }
        }
        assert forall|t2: Path, k2: Seq<u8>| (t2 != t || k2 != key) implies #[trigger] route_of(Option::Some(n2), ms2, t2, k2) == route_of(Option::Some(n), ms, t2, k2) by {
            assert(entry_ok(n2, ms2, t2, k2) || true);
            let e = entry(n2, t2, k2);
            assert(route(n2, ms2, t2, k2) == route(n, ms, t2, k2));
        }
        assert(entry_ok(n, ms, t, key));
    }
}
// ---- histories of registrations (properties C08, C09, C10) --------------------------------------------------------------
pub struct Reg { pub t: Path, pub key: Seq<u8>, pub md: MD }
pub open spec fn reg_of(hm: Seq<u8>, path: Seq<u8>, body: Seq<u8>, sys: Set<Seq<u8>>, m: int) -> Reg { Reg { t: tmpl_segs(path), key: hm + tmpl_verb(path), md: md_of(m, path, body, sys) } }
pub open spec fn same_route(g: Reg, t: Path, key: Seq<u8>) -> bool { g.t == t && g.key == key }
// what a history of accepted registrations leaves stored for a route
pub open spec fn after(h: Seq<Reg>, t: Path, key: Seq<u8>) -> Option<Option<MD>> decreases h.len() {
    if h.len() == 0 { Option::None } else {
        let o = after(h.drop_last(), t, key);
        if same_route(h.last(), t, key) { route_added(o, h.last().md) } else { o }
    }
}
// once: the route is the one registered; more than once: ambiguous for ever; never: nothing. No order of registration enters.
pub proof fn lemma_history(h: Seq<Reg>, t: Path, key: Seq<u8>)
    ensures (forall|i: int| 0 <= i < h.len() ==> !same_route(#[trigger] h[i], t, key)) ==> after(h, t, key) is None,
        forall|i: int| 0 <= i < h.len() && same_route(#[trigger] h[i], t, key) && (forall|j: int| 0 <= j < h.len() && j != i ==> !same_route(#[trigger] h[j], t, key))
            ==> after(h, t, key) == Option::Some(Option::Some(h[i].md)),
        forall|i: int, j: int| 0 <= i < j < h.len() && same_route(#[trigger] h[i], t, key) && same_route(#[trigger] h[j], t, key) ==> after(h, t, key) == Option::Some(Option::<MD>::None),
        after(h, t, key) is Some ==> exists|i: int| 0 <= i < h.len() && same_route(#[trigger] h[i], t, key),
    decreases h.len()
{
    if h.len() > 0 {
        let d = h.drop_last();
        lemma_history(d, t, key);
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] == h[i] by {}
        assert(h[h.len() - 1] == h.last());
        if after(d, t, key) is Some {
            let i = choose|i: int| 0 <= i < d.len() && same_route(#[trigger] d[i], t, key);
            assert(same_route(h[i], t, key));
        }
        assert forall|i: int| 0 <= i < h.len() && same_route(#[trigger] h[i], t, key) && (forall|j: int| 0 <= j < h.len() && j != i ==> !same_route(#[trigger] h[j], t, key))
            implies after(h, t, key) == Option::Some(Option::Some(h[i].md)) by {
            if i < d.len() { assert(same_route(d[i], t, key)); assert(!same_route(h[h.len() - 1], t, key)); assert forall|j: int| 0 <= j < d.len() && j != i implies !same_route(#[trigger] d[j], t, key) by { assert(!same_route(h[j], t, key)); } }
            else { assert forall|j: int| 0 <= j < d.len() implies !same_route(#[trigger] d[j], t, key) by { assert(!same_route(h[j], t, key)); } }
        }
        assert forall|i: int, j: int| 0 <= i < j < h.len() && same_route(#[trigger] h[i], t, key) && same_route(#[trigger] h[j], t, key) implies after(h, t, key) == Option::Some(Option::<MD>::None) by {
            if j < d.len() { assert(same_route(d[i], t, key) && same_route(d[j], t, key)); }
            else { assert(same_route(d[i], t, key)); if after(d, t, key) is None { assert(forall|x: int| 0 <= x < d.len() ==> !same_route(#[trigger] d[x], t, key)) by { if exists|x: int| 0 <= x < d.len() && same_route(#[trigger] d[x], t, key) { lemma_after_some(d, t, key, i); } } } lemma_after_some(d, t, key, i); }
        }
    }
}
proof fn lemma_after_some(h: Seq<Reg>, t: Path, key: Seq<u8>, i: int)
    requires 0 <= i < h.len(), same_route(h[i], t, key)
    ensures after(h, t, key) is Some
    decreases h.len()
{ if i < h.len() - 1 { assert(h.drop_last()[i] == h[i]); lemma_after_some(h.drop_last(), t, key, i); } }
// a builder state holds a history
pub open spec fn holds(root: Option<Node>, ms: Seq<Option<MD>>, h: Seq<Reg>) -> bool { forall|t: Path, key: Seq<u8>| #[trigger] route_of(root, ms, t, key) == after(h, t, key) }
// the postconditions of Register extend the history by one
pub proof fn lemma_holds_step(r1: Option<Node>, m1: Seq<Option<MD>>, r2: Option<Node>, m2: Seq<Option<MD>>, h: Seq<Reg>, g: Reg)
    requires holds(r1, m1, h), route_of(r2, m2, g.t, g.key) == route_added(route_of(r1, m1, g.t, g.key), g.md), others_same(r1, m1, r2, m2, g.t, g.key)
    ensures holds(r2, m2, h.push(g))
{
    assert forall|t: Path, key: Seq<u8>| #[trigger] route_of(r2, m2, t, key) == after(h.push(g), t, key) by {
        assert(h.push(g).drop_last() =~= h);
        assert(route_of(r1, m1, t, key) == after(h, t, key));
    }
}
pub proof fn lemma_holds_all(r1: Option<Node>, m1: Seq<Option<MD>>, r2: Option<Node>, m2: Seq<Option<MD>>, g: Reg)
    ensures route_of(r2, m2, g.t, g.key) == route_added(route_of(r1, m1, g.t, g.key), g.md) && others_same(r1, m1, r2, m2, g.t, g.key)
        ==> forall|h: Seq<Reg>| holds(r1, m1, h) ==> #[trigger] holds(r2, m2, h.push(g)),
{
    if route_of(r2, m2, g.t, g.key) == route_added(route_of(r1, m1, g.t, g.key), g.md) && others_same(r1, m1, r2, m2, g.t, g.key) {
        assert forall|h: Seq<Reg>| holds(r1, m1, h) implies #[trigger] holds(r2, m2, h.push(g)) by { lemma_holds_step(r1, m1, r2, m2, h, g); }
    }
}
// builders whose histories leave the same routes answer every request alike (so the order of registrations is irrelevant)
pub proof fn lemma_order(r1: Option<Node>, m1: Seq<Option<MD>>, h1: Seq<Reg>, r2: Option<Node>, m2: Seq<Option<MD>>, h2: Seq<Reg>, parts: Path, key: Seq<u8>)
    requires r1 is Some, r2 is Some, table_ok(r1, m1), table_ok(r2, m2), holds(r1, m1, h1), holds(r2, m2, h2), forall|t: Path, k: Seq<u8>| #[trigger] after(h1, t, k) == after(h2, t, k)
    ensures found(r1, m1, parts, key) == found(r2, m2, parts, key)
{
    let n1 = r1->0; let n2 = r2->0;
    assert forall|t: Path, k: Seq<u8>| #![trigger entry(n1, t, k)] #![trigger entry(n2, t, k)] route(n1, m1, t, k) == route(n2, m2, t, k) by {
        assert(route_of(r1, m1, t, k) == after(h1, t, k));
        assert(route_of(r2, m2, t, k) == after(h2, t, k));
    }
    lemma_same(n1, m1, n2, m2, parts, 0, key);
}
pub proof fn lemma_swap(h: Seq<Reg>, a: Reg, b: Reg, t: Path, key: Seq<u8>)
    ensures after(h.push(a).push(b), t, key) == after(h.push(b).push(a), t, key)
{
    reveal_with_fuel(after, 3);
    assert(h.push(a).push(b).last() == b && h.push(b).push(a).last() == a && h.push(a).last() == a && h.push(b).last() == b);
    assert(h.push(a).push(b).drop_last() =~= h.push(a)); assert(h.push(b).push(a).drop_last() =~= h.push(b));
    assert(h.push(a).drop_last() =~= h); assert(h.push(b).drop_last() =~= h);
}
// C07 + C08 for a whole table: something is found exactly when a stored route matches, and what is found is stored for a matching route
pub proof fn lemma_found(root: Option<Node>, ms: Seq<Option<MD>>, h: Seq<Reg>, parts: Path, key: Seq<u8>)
    requires root is Some, table_ok(root, ms), holds(root, ms, h)
    ensures found(root, ms, parts, key) is Some ==> exists|t: Path, k: Seq<u8>| key_ok(k, key) && #[trigger] matches(t, 0, parts, 0) && #[trigger] after(h, t, k) == found(root, ms, parts, key),
        (exists|i: int| 0 <= i < h.len() && key_ok((#[trigger] h[i]).key, key) && matches(h[i].t, 0, parts, 0)) ==> found(root, ms, parts, key) is Some,
{
    let n = root->0;
    if found(root, ms, parts, key) is Some {
        let x = sound(n, parts, 0, key);
        assert(route_of(root, ms, x.t, x.key) == after(h, x.t, x.key));
        assert(matches(x.t, 0, parts, 0));
    }
    if exists|i: int| 0 <= i < h.len() && key_ok((#[trigger] h[i]).key, key) && matches(h[i].t, 0, parts, 0) {
        let i = choose|i: int| 0 <= i < h.len() && key_ok((#[trigger] h[i]).key, key) && matches(h[i].t, 0, parts, 0);
        lemma_after_some(h, h[i].t, h[i].key, i);
        assert(route_of(root, ms, h[i].t, h[i].key) is Some);
        assert(entry_ok(n, ms, h[i].t, h[i].key));
        lemma_complete(n, parts, 0, key, Hit { t: h[i].t, key: h[i].key, at: 0 });
    }
}
