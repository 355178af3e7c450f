// ---- prefix writer (property C19) -------------------------------------------------------------------------------------
// the objects opened for a value called n
pub open spec fn px_open(p: Seq<Seq<u8>>, n: Seq<u8>) -> Seq<Evt> { Seq::new(p.len(), |i: int| Evt::StartObject(if i == 0 { n } else { p[i - 1] })) }
pub open spec fn px_name(p: Seq<Seq<u8>>, n: Seq<u8>) -> Seq<u8> { if p.len() == 0 { n } else { p.last() } }
pub open spec fn px_close(p: Seq<Seq<u8>>) -> Seq<Evt> { Seq::new(p.len(), |i: int| Evt::EndObject) }
// what is written for one event at nesting depth d
pub open spec fn px_step(p: Seq<Seq<u8>>, d: int, e: Evt) -> Seq<Evt> {
    let inner = if d == 0 && !closes_level(e) { px_open(p, name_of(e)) + seq![renamed(e, px_name(p, name_of(e)))] } else { seq![e] };
    if level_after(d, e) == 0 && !opens_level(e) { inner + px_close(p) } else { inner }
}
pub open spec fn px_depth(d: int, es: Seq<Evt>) -> int decreases es.len() { if es.len() == 0 { d } else { level_after(px_depth(d, es.drop_last()), es.last()) } }
pub open spec fn px_run(p: Seq<Seq<u8>>, d: int, es: Seq<Evt>) -> Seq<Evt> decreases es.len() {
    if es.len() == 0 { Seq::empty() } else { px_run(p, d, es.drop_last()) + px_step(p, px_depth(d, es.drop_last()), es.last()) }
}
// a top-level value: a scalar, or a start, events inside it, and the end that closes it
pub open spec fn is_value(v: Seq<Evt>) -> bool {
    v.len() > 0 && !closes_level(v[0]) && px_depth(0, v) == 0 && (forall|k: int| 0 < k < v.len() ==> (#[trigger] px_depth(0, v.take(k))) > 0)
}
// the value wrapped in the objects of the prefix
pub open spec fn wrapped(p: Seq<Seq<u8>>, v: Seq<Evt>) -> Seq<Evt> {
    px_open(p, name_of(v[0])) + v.update(0, renamed(v[0], px_name(p, name_of(v[0])))) + px_close(p)
}
pub open spec fn joined(vs: Seq<Seq<Evt>>) -> Seq<Evt> decreases vs.len() { if vs.len() == 0 { Seq::empty() } else { joined(vs.drop_last()) + vs.last() } }
// the events of a value before its last one
proof fn lemma_p_inside(p: Seq<Seq<u8>>, v: Seq<Evt>, k: int)
    requires is_value(v), 0 < k < v.len()
    ensures px_run(p, 0, v.take(k)) == px_open(p, name_of(v[0])) + v.take(k).update(0, renamed(v[0], px_name(p, name_of(v[0]))))
    decreases k
{
    let a = v.take(k);
    let f = renamed(v[0], px_name(p, name_of(v[0])));
    assert(a.drop_last() =~= v.take(k - 1));
    assert(px_depth(0, a) > 0);
    if k == 1 {
        assert(a.drop_last().len() == 0);
        assert(px_run(p, 0, a.drop_last()) =~= Seq::<Evt>::empty());
        assert(px_depth(0, a.drop_last()) == 0);
        assert(px_step(p, 0, v[0]) =~= px_open(p, name_of(v[0])) + seq![f]);
        assert(a.update(0, f) =~= seq![f]);
        assert(px_run(p, 0, a) =~= px_open(p, name_of(v[0])) + seq![f]);
    } else {
        lemma_p_inside(p, v, k - 1);
        assert(px_depth(0, v.take(k - 1)) > 0);
        assert(px_step(p, px_depth(0, a.drop_last()), a.last()) =~= seq![a.last()]);
        assert(px_run(p, 0, a) =~= px_open(p, name_of(v[0])) + a.update(0, f));
    }
}
// one top-level value is written wrapped in the objects of the prefix
pub proof fn lemma_p_value(p: Seq<Seq<u8>>, v: Seq<Evt>)
    requires is_value(v)
    ensures px_run(p, 0, v) == wrapped(p, v)
{
    let n = v.len() as int;
    let f = renamed(v[0], px_name(p, name_of(v[0])));
    if n == 1 {
        assert(v.drop_last().len() == 0);
        assert(px_depth(0, v.drop_last()) == 0);
        assert(px_run(p, 0, v.drop_last()) =~= Seq::<Evt>::empty());
        assert(v.update(0, f) =~= seq![f]);
        assert(px_run(p, 0, v) =~= wrapped(p, v));
    } else {
        lemma_p_inside(p, v, n - 1);
        assert(v.drop_last() =~= v.take(n - 1));
        assert(px_depth(0, v.take(n - 1)) > 0);
        assert(px_step(p, px_depth(0, v.drop_last()), v.last()) =~= seq![v.last()] + px_close(p));
        assert(px_run(p, 0, v) =~= wrapped(p, v));
    }
}
proof fn lemma_p_append(p: Seq<Seq<u8>>, d: int, a: Seq<Evt>, b: Seq<Evt>)
    ensures px_depth(d, a + b) == px_depth(px_depth(d, a), b), px_run(p, d, a + b) == px_run(p, d, a) + px_run(p, px_depth(d, a), b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(px_run(p, d, a) + px_run(p, px_depth(d, a), b) =~= px_run(p, d, a)); }
    else {
        lemma_p_append(p, d, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(px_run(p, d, a + b) =~= px_run(p, d, a) + px_run(p, px_depth(d, a), b));
    }
}
// any sequence of top-level values: each is written wrapped, in order
pub proof fn lemma_p_stream(p: Seq<Seq<u8>>, vs: Seq<Seq<Evt>>)
    requires forall|i: int| 0 <= i < vs.len() ==> is_value(#[trigger] vs[i])
    ensures px_run(p, 0, joined(vs)) == joined(vs.map_values(|v: Seq<Evt>| wrapped(p, v))), px_depth(0, joined(vs)) == 0
    decreases vs.len()
{
    let f = |v: Seq<Evt>| wrapped(p, v);
    if vs.len() == 0 {
    } else {
        assert forall|i: int| 0 <= i < vs.drop_last().len() implies is_value(#[trigger] vs.drop_last()[i]) by { assert(vs.drop_last()[i] == vs[i]); }
        lemma_p_stream(p, vs.drop_last());
        assert(is_value(vs[vs.len() - 1]));
        lemma_p_value(p, vs.last());
        lemma_p_append(p, 0, joined(vs.drop_last()), vs.last());
        assert(vs.map_values(f).drop_last() =~= vs.drop_last().map_values(f));
        assert(vs.map_values(f).last() == wrapped(p, vs.last()));
    }
}
// with an empty prefix the output equals the input
pub proof fn lemma_p_identity(d: int, es: Seq<Evt>)
    ensures px_run(Seq::empty(), d, es) == es
    decreases es.len()
{
    let p = Seq::<Seq<u8>>::empty();
    if es.len() > 0 {
        lemma_p_identity(d, es.drop_last());
        let k = px_depth(d, es.drop_last());
        assert(px_open(p, name_of(es.last())) =~= Seq::<Evt>::empty() && px_close(p) =~= Seq::<Evt>::empty());
        assert(renamed(es.last(), name_of(es.last())) == es.last() || closes_level(es.last()));
        assert(px_step(p, k, es.last()) =~= seq![es.last()]);
        assert(px_run(p, d, es) =~= es);
    } else { assert(px_run(p, d, es) =~= es); }
}
// while a value is open everything is forwarded unchanged
pub proof fn lemma_p_below(p: Seq<Seq<u8>>, d: int, e: Evt)
    requires d > 0, level_after(d, e) > 0
    ensures px_step(p, d, e) == seq![e]
{ assert(px_step(p, d, e) =~= seq![e]); }
