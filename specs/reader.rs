// ---- gRPC framing (properties C15, C16, C18) ----------------------------------------------------------------------
// an input stream: data are the bytes that have arrived so far (read ones included), of which data[pos..end] are readable;
// fin: no more will arrive; last: size of the last chunk handed out (what BackUp may take back);
// empties: how many empty chunks it may still hand out
pub struct InStream { pub data: Seq<u8>, pub pos: int, pub end: int, pub fin: bool, pub last: int, pub empties: nat }
pub open spec fn in_ok(s: InStream) -> bool { 0 <= s.pos <= s.end <= s.data.len() && 0 <= s.last <= s.pos && s.data.len() <= max_size() }
// the input of a reader: everything that has arrived is readable
pub open spec fn input_ok(s: InStream) -> bool { in_ok(s) && s.end == s.data.len() }
pub open spec fn avail(s: InStream) -> int { s.end - s.pos }
// a stream over the next n bytes of s
pub open spec fn limited(s: InStream, n: int) -> InStream { InStream { data: s.data, pos: s.pos, end: imin(s.end, s.pos + n), fin: true, last: 0, empties: s.empties } }
pub open spec fn same_source(a: InStream, b: InStream) -> bool { a.data == b.data && a.end == b.end && a.fin == b.fin }
// big-endian 32-bit value
pub open spec fn be32(b: Seq<u8>, i: int) -> int { b[i] as int * 0x100_0000 + b[i + 1] as int * 0x1_0000 + b[i + 2] as int * 0x100 + b[i + 3] as int }
pub open spec fn be_byte(n: int, k: int) -> u8 { ((n / (if k == 0 { 0x100_0000 } else if k == 1 { 0x1_0000int } else if k == 2 { 0x100 } else { 1 })) % 256) as u8 }
// the 5-byte prefix of a message of n bytes
pub open spec fn prefix_of(n: int) -> Seq<u8> { seq![0u8, be_byte(n, 0), be_byte(n, 1), be_byte(n, 2), be_byte(n, 3)] }
pub proof fn lemma_prefix(n: int)
    requires 0 <= n < 0x1_0000_0000
    ensures be32(prefix_of(n), 1) == n, prefix_of(n)[0] == 0, prefix_of(n).len() == 5
{
    let a = n / 0x100_0000; let b = (n / 0x1_0000) % 256; let c = (n / 0x100) % 256; let d = n % 256;
    assert(n == a * 0x100_0000 + b * 0x1_0000 + c * 0x100 + d && 0 <= a < 256) by (nonlinear_arith)
        requires a == n / 0x100_0000, b == (n / 0x1_0000) % 256, c == (n / 0x100) % 256, d == n % 256, 0 <= n < 0x1_0000_0000;
}
// ---- one call of NextMessage
// hdr: a header has been read and its payload (size bytes) is pending; failed: an error was reported
pub struct RS { pub s: InStream, pub hdr: bool, pub size: int, pub finished: bool, pub failed: bool }
pub open spec fn over(h: RS) -> bool { h.finished || h.failed }
// the header read ahead is directly before the read position
pub open spec fn rs_ok(h: RS) -> bool {
    input_ok(h.s) && (h.hdr ==> h.s.pos >= 5 && h.s.data[h.s.pos - 5] == 0 && h.size == be32(h.s.data, h.s.pos - 4))
}
pub open spec fn after_header(h: RS) -> RS { RS { s: InStream { pos: h.s.pos + 5, ..h.s }, hdr: true, size: be32(h.s.data, h.s.pos + 1), ..h } }
pub open spec fn payload(h: RS) -> RS {
    if avail(h.s) < h.size { if h.s.fin { RS { failed: true, ..h } } else { h } } else { RS { hdr: false, ..h } }
}
pub open spec fn next(h: RS) -> RS {
    if over(h) { h }
    else if h.hdr { payload(h) }
    else if avail(h.s) < 5 { RS { finished: h.s.fin, failed: h.s.fin && avail(h.s) > 0, ..h } }
    else if h.s.data[h.s.pos] != 0 { RS { s: InStream { pos: h.s.pos + 5, ..h.s }, failed: true, ..h } }
    else { payload(after_header(h)) }
}
// does the call return a message (of next(h).size bytes from next(h).s.pos on)?
pub open spec fn yields(h: RS) -> bool {
    !over(h) && (if h.hdr { avail(h.s) >= h.size } else { avail(h.s) >= 5 && h.s.data[h.s.pos] == 0 && avail(h.s) - 5 >= be32(h.s.data, h.s.pos + 1) })
}
// ---- histories of a reader: bytes arrive, the input ends, NextMessage is called and the message it returns is read
pub enum Ev { Arrive(Seq<u8>), End, Call }
pub struct Hist { pub h: RS, pub out: Seq<(int, int)> }
pub open spec fn start_hist() -> Hist { Hist { h: RS { s: InStream { data: Seq::empty(), pos: 0, end: 0, fin: false, last: 0, empties: 0 }, hdr: false, size: 0, finished: false, failed: false }, out: Seq::empty() } }
pub open spec fn ev_step(x: Hist, e: Ev) -> Hist {
    match e {
        Ev::Arrive(b) => if x.h.s.fin { x } else { Hist { h: RS { s: InStream { data: x.h.s.data + b, end: x.h.s.end + b.len(), ..x.h.s }, ..x.h }, ..x } },
        Ev::End => Hist { h: RS { s: InStream { fin: true, ..x.h.s }, ..x.h }, ..x },
        Ev::Call => {
            let n = next(x.h);
            if yields(x.h) { Hist { h: RS { s: InStream { pos: n.s.pos + n.size, ..n.s }, ..n }, out: x.out.push((n.s.pos, n.size)) } } else { Hist { h: n, ..x } }
        }
    }
}
pub open spec fn run_hist(es: Seq<Ev>) -> Hist decreases es.len() { if es.len() == 0 { start_hist() } else { ev_step(run_hist(es.drop_last()), es.last()) } }
pub open spec fn out_end(out: Seq<(int, int)>) -> int { if out.len() == 0 { 0 } else { out.last().0 + out.last().1 } }
// the i-th message out is the payload of the frame that starts at the end of the one before
pub open spec fn frame_at(out: Seq<(int, int)>, i: int, d: Seq<u8>) -> bool {
    let p = out_end(out.subrange(0, i));
    out[i].0 == p + 5 && p >= 0 && p + 5 <= d.len() && d[p] == 0 && out[i].1 == be32(d, p + 1) && out[i].1 >= 0 && out[i].0 + out[i].1 <= d.len()
}
// the messages out are the payloads of the first frames of d, back to back
pub open spec fn frames(out: Seq<(int, int)>, d: Seq<u8>) -> bool { forall|i: int| 0 <= i < out.len() ==> #[trigger] frame_at(out, i, d) }
pub open spec fn hist_ok(x: Hist) -> bool {
    let e = out_end(x.out);
    let d = x.h.s.data;
    &&& 0 <= x.h.s.pos <= d.len() && x.h.s.end == d.len() && 0 <= e
    &&& frames(x.out, d)
    &&& x.h.hdr ==> x.h.s.pos == e + 5 && d[e] == 0 && x.h.size == be32(d, e + 1)
    &&& !x.h.hdr ==> x.h.s.pos == e || x.h.failed && x.h.s.pos == e + 5 && d[e] != 0
    // failed: a bad flag, or the input ended inside a frame
    &&& x.h.failed ==> (d.len() >= e + 5 && d[e] != 0) || x.h.s.fin && e < d.len() < e + 5 || x.h.s.fin && d.len() >= e + 5 && d[e] == 0 && d.len() < e + 5 + be32(d, e + 1)
    // finished without failure: the input ended on a frame boundary
    &&& x.h.finished && !x.h.failed ==> x.h.s.fin && d.len() == e
}
proof fn lemma_frames_grow(out: Seq<(int, int)>, d: Seq<u8>, b: Seq<u8>)
    requires frames(out, d)
    ensures frames(out, d + b)
{
    assert forall|i: int| 0 <= i < out.len() implies #[trigger] frame_at(out, i, d + b) by {
        assert(frame_at(out, i, d));
        let p = out_end(out.subrange(0, i));
        assert((d + b)[p] == d[p] && (d + b)[p + 1] == d[p + 1] && (d + b)[p + 2] == d[p + 2] && (d + b)[p + 3] == d[p + 3] && (d + b)[p + 4] == d[p + 4]);
    }
}
proof fn lemma_frames_push(out: Seq<(int, int)>, d: Seq<u8>, m: (int, int))
    requires frames(out, d), out_end(out) >= 0, m.0 == out_end(out) + 5, m.0 + m.1 <= d.len(), m.1 >= 0, d[out_end(out)] == 0, m.1 == be32(d, out_end(out) + 1)
    ensures frames(out.push(m), d)
{
    let o2 = out.push(m);
    assert forall|i: int| 0 <= i < o2.len() implies #[trigger] frame_at(o2, i, d) by {
        if i < out.len() { assert(frame_at(out, i, d)); assert(o2.subrange(0, i) =~= out.subrange(0, i)); assert(o2[i] == out[i]); } else { assert(o2.subrange(0, i) =~= out); }
    }
}
pub proof fn lemma_step_ok(x: Hist, e: Ev)
    requires hist_ok(x)
    ensures hist_ok(ev_step(x, e))
{
    match e {
        Ev::Arrive(b) => { if !x.h.s.fin { lemma_frames_grow(x.out, x.h.s.data, b); } }
        Ev::End => {}
        Ev::Call => {
            let n = next(x.h);
            if yields(x.h) {
                let m = (n.s.pos, n.size);
                lemma_frames_push(x.out, x.h.s.data, m);
                assert(x.out.push(m).last() == m);
            }
        }
    }
}
// after any history: what was returned are exactly the payloads of the first frames, and the input has been read up to the end of the last one
// (plus the header of the pending one); errors and the end of the stream are reported only where they belong
pub proof fn lemma_hist(es: Seq<Ev>)
    ensures hist_ok(run_hist(es))
    decreases es.len()
{
    if es.len() > 0 { lemma_hist(es.drop_last()); lemma_step_ok(run_hist(es.drop_last()), es.last()); }
}
// a call that returns nothing: no complete frame has arrived; and it reports every malformation or truncation there is
pub proof fn lemma_call(x: Hist)
    requires hist_ok(x), !over(x.h)
    ensures ({
        let e = out_end(x.out); let d = x.h.s.data; let y = ev_step(x, Ev::Call);
        &&& !yields(x.h) ==> !(d.len() >= e + 5 && d[e] == 0 && d.len() >= e + 5 + be32(d, e + 1))
        &&& y.h.failed <==> (d.len() >= e + 5 && d[e] != 0) || x.h.s.fin && e < d.len() < e + 5 || x.h.s.fin && d.len() >= e + 5 && d[e] == 0 && d.len() < e + 5 + be32(d, e + 1)
        &&& y.h.finished && !y.h.failed <==> x.h.s.fin && d.len() == e && !x.h.hdr
    })
{}
// once finished or failed: nothing changes any more
pub proof fn lemma_over(h: RS)
    requires over(h)
    ensures next(h) == h, !yields(h)
{}
