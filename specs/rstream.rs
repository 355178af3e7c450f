// ---- streaming request translation (property C22) ----------------------------------------------------------------------
// One RequestMessageTranslator: what it was made with and the events it received.  What it answers is determined by these.
pub struct Tr { pub resolver: int, pub delim: bool, pub info: C_RequestInfo, pub w: Writer, pub taken: bool }
pub uninterp spec fn tr_status(resolver: int, info: C_RequestInfo, log: Seq<Evt>) -> Status;
pub uninterp spec fn tr_message(resolver: int, delim: bool, info: C_RequestInfo, log: Seq<Evt>) -> Option<Seq<u8>>;
pub open spec fn tr_next(t: Tr) -> Option<Seq<u8>> { if t.taken { Option::None } else { tr_message(t.resolver, t.delim, t.info, t.w.log) } }

pub struct RS { pub st: Status, pub info: C_RequestInfo, pub tr: Option<Tr>, pub msgs: Seq<Seq<u8>>, pub depth: int, pub done: bool }
pub struct Env { pub resolver: int, pub delim: bool }
pub open spec fn invalid(s: Status) -> bool { s.code == 3 }
// the options apply to every message, the bindings to the first one only
pub open spec fn started(v: Env, s: RS) -> RS {
    RS { tr: Option::Some(Tr { resolver: v.resolver, delim: v.delim, info: s.info, w: Writer { log: Seq::empty() }, taken: false }),
         info: C_RequestInfo { variable_bindings: Seq::empty(), ..s.info }, ..s }
}
pub open spec fn sent(s: RS, e: Evt) -> RS { RS { tr: Option::Some(Tr { w: Writer { log: s.tr->0.w.log.push(e) }, ..s.tr->0 }), ..s } }
// the element is complete: its message, or its error (the text of the error is not specified: err)
pub open spec fn is_error(s: RS, k: RS) -> bool { k.st.code == 3 && k.msgs == s.msgs && k.done == s.done }
pub open spec fn finished_element(s: RS, k: RS) -> bool {
    let t = s.tr->0;
    let st = tr_status(t.resolver, t.info, t.w.log);
    if st.code != 0 { k.st == st && k.msgs == s.msgs && k.done == s.done && k.depth == s.depth && k.info == s.info }
    else if tr_next(t) is Some { k == RS { st: k.st, msgs: s.msgs.push(tr_next(t)->0), tr: Option::None, ..s } && k.st.code == s.st.code }
    else { is_error(s, k) && k.depth == s.depth && k.info == s.info }
}
pub open spec fn rs_ok(s: RS) -> bool { s.st.code == 0 ==> 0 <= s.depth && (s.tr is Some <==> s.depth >= 2) && (s.tr is Some ==> !s.tr->0.taken) }
// what one event does
pub open spec fn rstep(v: Env, s: RS, e: Evt, k: RS) -> bool {
    if s.st.code != 0 { k == s }
    else {
        match e {
            Evt::StartObject(_) => if s.depth == 0 { is_error(s, k) } else { k == RS { depth: s.depth + 1, ..sent(if s.depth == 1 { started(v, s) } else { s }, e) } },
            Evt::StartList(_) => if s.depth == 0 { k == RS { depth: 1, ..s } } else { k == RS { depth: s.depth + 1, ..sent(if s.depth == 1 { started(v, s) } else { s }, e) } },
            Evt::EndObject => if s.depth <= 1 { is_error(s, k) } else { let y = RS { depth: s.depth - 1, ..sent(s, e) }; if s.depth == 2 { finished_element(y, k) } else { k == y } },
            Evt::EndList => if s.depth == 0 { is_error(s, k) } else if s.depth == 1 { k == RS { depth: 0, done: true, ..s } }
                else { let y = RS { depth: s.depth - 1, ..sent(s, e) }; if s.depth == 2 { finished_element(y, k) } else { k == y } },
            Evt::Value(_, _) => if s.depth == 0 { is_error(s, k) } else if s.depth == 1 { finished_element(sent(started(v, s), e), k) } else { k == sent(s, e) },
        }
    }
}
// ---- what this means for whole streams
pub open spec fn rtrace(v: Env, t: Seq<RS>, es: Seq<Evt>) -> bool { t.len() == es.len() + 1 && rs_ok(t[0]) && forall|i: int| 0 <= i < es.len() ==> rstep(v, t[i], #[trigger] es[i], t[i + 1]) }
pub open spec fn level(es: Seq<Evt>, n: int) -> int decreases n { if n <= 0 { 0 } else { level_after(level(es, n - 1), es[n - 1]) } }
// one complete value: nesting opens at its first event and closes at its last one only
pub open spec fn one_value(es: Seq<Evt>) -> bool {
    es.len() > 0 && level(es, es.len() as int) == 0 && !closes_level(es[0]) && (forall|i: int| 0 < i < es.len() ==> #[trigger] level(es, i) > 0)
}
pub proof fn lemma_step_ok(v: Env, s: RS, e: Evt, k: RS)
    requires rs_ok(s), rstep(v, s, e, k)
    ensures rs_ok(k), k.st.code == 0 ==> k.depth == level_after(s.depth, e)
{}
pub proof fn lemma_sticky(v: Env, t: Seq<RS>, es: Seq<Evt>, i: int, j: int)
    requires rtrace(v, t, es), 0 <= i <= j < t.len(), t[i].st.code != 0
    ensures t[j] == t[i]
    decreases j
{ if i < j { lemma_sticky(v, t, es, i, j - 1); assert(rstep(v, t[j - 1], es[j - 1], t[j])); } }
// inside an element: the translator has received exactly the events of the element so far
proof fn lemma_inside(v: Env, t: Seq<RS>, es: Seq<Evt>, i: int)
    requires rtrace(v, t, es), one_value(es), t[0].st.code == 0, t[0].depth == 1, 0 < i < es.len()
    ensures t[i].st.code == 0, t[i].depth == 1 + level(es, i), t[i].msgs == t[0].msgs, t[i].done == t[0].done,
        t[i].tr == Option::Some(Tr { resolver: v.resolver, delim: v.delim, info: t[0].info, w: Writer { log: es.take(i) }, taken: false }),
        t[i].info == (C_RequestInfo { variable_bindings: Seq::empty(), ..t[0].info })
    decreases i
{
    assert(rstep(v, t[i - 1], es[i - 1], t[i]));
    if i == 1 { assert(level(es, 1) == level_after(level(es, 0), es[0])); assert(level(es, 1) > 0); assert(es.take(1) =~= Seq::<Evt>::empty().push(es[0])); }
    else {
        lemma_inside(v, t, es, i - 1);
        assert(level(es, i - 1) > 0 && level(es, i) > 0);
        assert(level(es, i) == level_after(level(es, i - 1), es[i - 1]));
        assert(es.take(i) =~= es.take(i - 1).push(es[i - 1]));
    }
}
// one element of the array: exactly one message (that of a translator that got exactly its events), or the error
pub open spec fn element_result(v: Env, s: RS, es: Seq<Evt>, k: RS) -> bool {
    let st = tr_status(v.resolver, s.info, es); let m = tr_message(v.resolver, v.delim, s.info, es);
    if st.code != 0 { k.st == st && k.msgs == s.msgs } else if m is Some { k.st.code == 0 && k.msgs == s.msgs.push(m->0) && k.depth == 1 && k.done == s.done && k.info == (C_RequestInfo { variable_bindings: Seq::empty(), ..s.info }) }
    else { k.st.code == 3 && k.msgs == s.msgs }
}
pub proof fn lemma_element(v: Env, t: Seq<RS>, es: Seq<Evt>)
    requires rtrace(v, t, es), one_value(es), t[0].st.code == 0, t[0].depth == 1
    ensures element_result(v, t[0], es, t.last()), rs_ok(t.last())
{
    let n = es.len() as int;
    assert(rstep(v, t[n - 1], es[n - 1], t[n]));
    if n > 1 {
        lemma_inside(v, t, es, n - 1);
        assert(level(es, n) == level_after(level(es, n - 1), es[n - 1]));
        assert(level(es, n - 1) > 0);
        assert(es =~= es.take(n - 1).push(es[n - 1]));
    } else { assert(level(es, 1) == level_after(level(es, 0), es[0])); assert(es =~= Seq::<Evt>::empty().push(es[0])); }
    lemma_step_ok_at(v, t, es, n);
}
proof fn lemma_step_ok_at(v: Env, t: Seq<RS>, es: Seq<Evt>, i: int)
    requires rtrace(v, t, es), 0 <= i < t.len()
    ensures rs_ok(t[i])
    decreases i
{ if i > 0 { lemma_step_ok_at(v, t, es, i - 1); assert(rstep(v, t[i - 1], es[i - 1], t[i])); lemma_step_ok(v, t[i - 1], es[i - 1], t[i]); } }
// a whole array: '[' v_1 ... v_n ']', cut into its elements; bindings only in the first element
pub open spec fn bare(i: C_RequestInfo) -> C_RequestInfo { C_RequestInfo { variable_bindings: Seq::empty(), ..i } }
pub open spec fn el_info(i: C_RequestInfo, n: int) -> C_RequestInfo { if n == 0 { i } else { bare(i) } }
pub open spec fn el_ok(v: Env, i: C_RequestInfo, es: Seq<Evt>) -> bool { tr_status(v.resolver, i, es).code == 0 && tr_message(v.resolver, v.delim, i, es) is Some }
// traces ts[j] of the elements vs[j], one after the other
pub open spec fn chained(v: Env, ts: Seq<Seq<RS>>, vs: Seq<Seq<Evt>>) -> bool {
    &&& ts.len() == vs.len()
    &&& forall|j: int| 0 <= j < vs.len() ==> rtrace(v, #[trigger] ts[j], vs[j]) && one_value(vs[j])
    &&& forall|j: int| 0 < j < vs.len() ==> (#[trigger] ts[j])[0] == ts[j - 1].last()
}
pub open spec fn messages(v: Env, i: C_RequestInfo, vs: Seq<Seq<Evt>>) -> Seq<Seq<u8>> { Seq::new(vs.len(), |j: int| tr_message(v.resolver, v.delim, el_info(i, j), vs[j])->0) }
pub proof fn lemma_array(v: Env, ts: Seq<Seq<RS>>, vs: Seq<Seq<Evt>>, n: int)
    requires chained(v, ts, vs), 0 < n <= vs.len(), ts[0][0].st.code == 0, ts[0][0].depth == 1, ts[0][0].msgs.len() == 0,
        forall|j: int| 0 <= j < n ==> el_ok(v, el_info(ts[0][0].info, j), #[trigger] vs[j])
    ensures ts[n - 1].last().st.code == 0, ts[n - 1].last().depth == 1, ts[n - 1].last().info == bare(ts[0][0].info), ts[n - 1].last().done == ts[0][0].done,
        ts[n - 1].last().msgs =~= messages(v, ts[0][0].info, vs.take(n))
    decreases n
{
    let i = ts[0][0].info;
    if n > 1 { lemma_array(v, ts, vs, n - 1); assert(ts[n - 1][0] == ts[n - 2].last()); }
    assert(rtrace(v, ts[n - 1], vs[n - 1]) && el_ok(v, el_info(i, n - 1), vs[n - 1]));
    lemma_element(v, ts[n - 1], vs[n - 1]);
    assert(bare(bare(i)) == bare(i));
    assert(vs.take(n)[n - 1] == vs[n - 1]);
    if n > 1 { assert(messages(v, i, vs.take(n)) =~= messages(v, i, vs.take(n - 1)).push(tr_message(v.resolver, v.delim, el_info(i, n - 1), vs[n - 1])->0)) by {
        assert forall|j: int| 0 <= j < n - 1 implies messages(v, i, vs.take(n))[j] == messages(v, i, vs.take(n - 1))[j] by { assert(vs.take(n)[j] == vs.take(n - 1)[j]); } } }
    assert(ts[n - 1].last().msgs =~= messages(v, i, vs.take(n)));
}
