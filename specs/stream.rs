// ---- byte stream over a message stream (property C17) ----------------------------------------------------------------
// a message stream: the messages that are available now, in order, and whether no more will come
pub struct MsgStream { pub ahead: Seq<Seq<u8>>, pub fin: bool }
pub open spec fn ms_ok(m: MsgStream) -> bool { forall|i: int| 0 <= i < m.ahead.len() ==> (#[trigger] m.ahead[i]).len() <= 0x7fff_ffff }
pub open spec fn flat(a: Seq<Seq<u8>>) -> Seq<u8> decreases a.len() { if a.len() == 0 { Seq::empty() } else { a[0] + flat(a.skip(1)) } }
// the messages from the first non-empty one on
pub open spec fn drop_empty(a: Seq<Seq<u8>>) -> Seq<Seq<u8>> decreases a.len() { if a.len() == 0 || a[0].len() > 0 { a } else { drop_empty(a.skip(1)) } }
// the bytes not delivered yet that are available: the rest of the current message and the messages ahead
pub open spec fn rest(m: Seq<u8>, p: int, a: Seq<Seq<u8>>) -> Seq<u8> { m.subrange(p, m.len() as int) + flat(a) }
pub open spec fn st_ok(m: Seq<u8>, p: int, a: MsgStream) -> bool { 0 <= p <= m.len() && m.len() <= 0x7fff_ffff && ms_ok(a) }
// size of what the next read delivers: the rest of the current message, or else the first non-empty message
pub open spec fn chunk(m: Seq<u8>, p: int, a: Seq<Seq<u8>>) -> int {
    if p < m.len() { m.len() - p } else { let d = drop_empty(a); if d.len() > 0 { d[0].len() as int } else { 0 } }
}
pub proof fn lemma_drop_empty(a: Seq<Seq<u8>>)
    ensures flat(drop_empty(a)) == flat(a), drop_empty(a).len() > 0 ==> drop_empty(a)[0].len() > 0, drop_empty(a).len() == 0 ==> flat(a).len() == 0
    decreases a.len()
{ if a.len() > 0 && a[0].len() == 0 { lemma_drop_empty(a.skip(1)); assert(a[0] + flat(a.skip(1)) =~= flat(a.skip(1))); } }
pub proof fn lemma_chunk(m: Seq<u8>, p: int, a: MsgStream)
    ensures st_ok(m, p, a) ==> chunk(m, p, a.ahead) <= rest(m, p, a.ahead).len() && (chunk(m, p, a.ahead) == 0 <==> rest(m, p, a.ahead).len() == 0) && 0 <= chunk(m, p, a.ahead)
{ lemma_drop_empty(a.ahead); }
pub proof fn lemma_drops()
    ensures forall|a: Seq<Seq<u8>>| flat(#[trigger] drop_empty(a)) == flat(a), forall|a: Seq<Seq<u8>>| (#[trigger] drop_empty(a)).len() > 0 ==> drop_empty(a)[0].len() > 0,
        forall|a: Seq<Seq<u8>>| (#[trigger] drop_empty(a)).len() == 0 ==> flat(a).len() == 0
{
    assert forall|a: Seq<Seq<u8>>| flat(#[trigger] drop_empty(a)) == flat(a) by { lemma_drop_empty(a); }
    assert forall|a: Seq<Seq<u8>>| (#[trigger] drop_empty(a)).len() > 0 implies drop_empty(a)[0].len() > 0 by { lemma_drop_empty(a); }
    assert forall|a: Seq<Seq<u8>>| (#[trigger] drop_empty(a)).len() == 0 implies flat(a).len() == 0 by { lemma_drop_empty(a); }
}
// ---- histories: messages arrive, reads and back-ups of (part of) the chunk just read
pub struct Adapter { pub m: Seq<u8>, pub p: int, pub a: MsgStream }
pub enum AEv { Arrive(Seq<u8>), End, Read, BackUp(int), Query }
pub struct AHist { pub x: Adapter, pub got: Seq<u8>, pub all: Seq<u8>, pub last: int }
// what a read does: takes chunk() bytes (see the postconditions of Next); a query or a read may drop the current message once it is used up
pub open spec fn after_read(x: Adapter, y: Adapter) -> bool {
    let n = chunk(x.m, x.p, x.a.ahead); let r = rest(x.m, x.p, x.a.ahead);
    st_ok(y.m, y.p, y.a) && y.a.fin == x.a.fin && n <= y.p && rest(y.m, y.p, y.a.ahead) == r.skip(n) && (n > 0 ==> y.m.subrange(y.p - n, y.p) == r.take(n))
}
pub open spec fn a_step(h: AHist, e: AEv, k: AHist) -> bool {
    match e {
        AEv::Arrive(b) => !h.x.a.fin && b.len() <= 0x7fff_ffff && k == AHist { x: Adapter { a: MsgStream { ahead: h.x.a.ahead.push(b), ..h.x.a }, ..h.x }, all: h.all + b, ..h },
        AEv::End => k == AHist { x: Adapter { a: MsgStream { fin: true, ..h.x.a }, ..h.x }, ..h },
        AEv::Read => after_read(h.x, k.x) && k.last == chunk(h.x.m, h.x.p, h.x.a.ahead) && k.got == h.got + rest(h.x.m, h.x.p, h.x.a.ahead).take(k.last) && k.all == h.all,
        AEv::BackUp(n) => 0 < n <= h.last && k == AHist { x: Adapter { p: h.x.p - n, ..h.x }, got: h.got.subrange(0, h.got.len() - n), last: 0, ..h },
        AEv::Query => st_ok(k.x.m, k.x.p, k.x.a) && k.x.a.fin == h.x.a.fin && rest(k.x.m, k.x.p, k.x.a.ahead) == rest(h.x.m, h.x.p, h.x.a.ahead) && k.got == h.got && k.all == h.all && k.last == 0,
    }
}
// delivered bytes followed by those still to come are the concatenation of all messages
pub open spec fn a_ok(h: AHist) -> bool {
    &&& st_ok(h.x.m, h.x.p, h.x.a)
    &&& h.got + rest(h.x.m, h.x.p, h.x.a.ahead) == h.all
    &&& 0 <= h.last <= h.x.p && h.last <= h.got.len() && (h.last > 0 ==> h.x.m.subrange(h.x.p - h.last, h.x.p) == h.got.subrange(h.got.len() - h.last, h.got.len() as int))
}
proof fn lemma_flat_push(a: Seq<Seq<u8>>, b: Seq<u8>)
    ensures flat(a.push(b)) == flat(a) + b
    decreases a.len()
{
    if a.len() == 0 { assert(a.push(b).skip(1) =~= Seq::empty()); assert(a.push(b)[0] == b); assert(flat(a.push(b).skip(1)) =~= Seq::empty()); assert(flat(a.push(b)) =~= b + flat(a.push(b).skip(1))); assert(flat(a) + b =~= b); assert(flat(a.push(b)) =~= b); }
    else { lemma_flat_push(a.skip(1), b); assert(a.push(b).skip(1) =~= a.skip(1).push(b)); assert(flat(a.push(b)) =~= flat(a) + b); }
}
pub proof fn lemma_a_step(h: AHist, e: AEv, k: AHist)
    requires a_ok(h), a_step(h, e, k)
    ensures a_ok(k)
{
    lemma_chunk(h.x.m, h.x.p, h.x.a);
    let r = rest(h.x.m, h.x.p, h.x.a.ahead);
    match e {
        AEv::Arrive(b) => {
            lemma_flat_push(h.x.a.ahead, b);
            assert(rest(k.x.m, k.x.p, k.x.a.ahead) =~= r + b);
            assert(k.got + rest(k.x.m, k.x.p, k.x.a.ahead) =~= k.all);
            assert forall|i: int| 0 <= i < k.x.a.ahead.len() implies (#[trigger] k.x.a.ahead[i]).len() <= 0x7fff_ffff by { if i < h.x.a.ahead.len() { assert(k.x.a.ahead[i] == h.x.a.ahead[i]); } }
        }
        AEv::End => {}
        AEv::Read => {
            assert(k.got + r.skip(k.last) =~= h.got + r);
            assert(k.got.subrange(k.got.len() - k.last, k.got.len() as int) =~= r.take(k.last));
        }
        AEv::BackUp(n) => {
            let tail = h.got.subrange(h.got.len() - n, h.got.len() as int);
            let lastc = h.got.subrange(h.got.len() - h.last, h.got.len() as int);
            assert(tail =~= lastc.subrange(h.last - n, h.last));
            assert(h.x.m.subrange(h.x.p - n, h.x.p) =~= h.x.m.subrange(h.x.p - h.last, h.x.p).subrange(h.last - n, h.last));
            assert(rest(k.x.m, k.x.p, k.x.a.ahead) =~= tail + r);
            assert(k.got + (tail + r) =~= h.got + r);
        }
        AEv::Query => {}
    }
}
// for every history, from a new adapter over a message stream
pub open spec fn a_start(a: MsgStream) -> AHist { AHist { x: Adapter { m: Seq::empty(), p: 0, a }, got: Seq::empty(), all: flat(a.ahead), last: 0 } }
pub open spec fn a_trace(t: Seq<AHist>, es: Seq<AEv>) -> bool {
    t.len() == es.len() + 1 && ms_ok(t[0].x.a) && t[0] == a_start(t[0].x.a) && forall|i: int| 0 <= i < es.len() ==> a_step(t[i], #[trigger] es[i], t[i + 1])
}
pub proof fn lemma_a_trace(t: Seq<AHist>, es: Seq<AEv>, i: int)
    requires a_trace(t, es), 0 <= i < t.len()
    ensures a_ok(t[i])
    decreases i
{
    if i == 0 { assert(t[0].got + rest(t[0].x.m, t[0].x.p, t[0].x.a.ahead) =~= t[0].all); }
    else { lemma_a_trace(t, es, i - 1); lemma_a_step(t[i - 1], es[i - 1], t[i]); }
}
// the adapter seen through its interface
pub uninterp spec fn byte_stream(a: C_InputStreamOverMessageStream) -> ByteStream;
pub struct ByteStream { pub id: int }
