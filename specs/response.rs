// ---- responses as JSON (property C24) ------------------------------------------------------------------------------------
pub struct TC { pub resolver: int, pub url: Seq<u8>, pub opts: C_JsonResponseTranslateOptions, pub streaming: bool }
pub struct TS { pub h: RS, pub first: bool, pub fin: bool, pub st: Status }
pub struct PrintOptions { pub id: int }
pub struct OutS { pub data: Seq<u8>, pub last: int }
// the JSON of a message (protobuf's BinaryToJsonStream), or its error
pub uninterp spec fn json_raw(resolver: int, url: Seq<u8>, message: Seq<u8>, opts: PrintOptions) -> StatusOr<Seq<u8>>;
pub open spec fn json_of(resolver: int, url: Seq<u8>, message: Seq<u8>, opts: PrintOptions) -> StatusOr<Seq<u8>> {
    match json_raw(resolver, url, message, opts) { StatusOr::Ok(j) => StatusOr::Ok(j), StatusOr::Err(e) => StatusOr::Err(if e.code == 0 { Status { code: 2, ..e } } else { e }) }
}
pub open spec fn as_array(c: TC) -> bool { c.streaming && !c.opts.stream_newline_delimited }
pub open spec fn as_lines(c: TC) -> bool { c.streaming && c.opts.stream_newline_delimited }
// what is returned for one message
pub open spec fn piece(c: TC, first: bool, message: Seq<u8>) -> StatusOr<Seq<u8>> {
    match json_of(c.resolver, c.url, message, c.opts.json_print_options) {
        StatusOr::Err(e) => StatusOr::Err(e),
        StatusOr::Ok(j) => StatusOr::Ok((if as_array(c) { seq![if first { 91u8 } else { 44u8 }] } else { Seq::empty() }) + j + (if as_lines(c) { seq![10u8] } else { Seq::empty() })),
    }
}
pub open spec fn t_over(z: TS) -> bool { z.fin || z.st.code != 0 }
pub open spec fn message_at(h: RS) -> Seq<u8> { next(h).s.data.subrange(next(h).s.pos, next(h).s.pos + next(h).size) }
pub open spec fn t_piece(c: TC, z: TS) -> StatusOr<Seq<u8>> { piece(c, z.first, message_at(z.h)) }
// the stream of messages ends with this call
pub open spec fn t_ends(c: TC, z: TS) -> bool { !t_over(z) && c.streaming && !yields(z.h) && !next(z.h).failed && next(z.h).finished }
pub open spec fn ends_lines(c: TC, z: TS) -> bool { t_ends(c, z) && !as_array(c) }
pub open spec fn gives(c: TC, z: TS) -> bool { !t_over(z) && (if yields(z.h) { t_piece(c, z) is Ok } else { t_ends(c, z) && as_array(c) }) }
pub open spec fn returned(c: TC, z: TS) -> Seq<u8> {
    if yields(z.h) { t_piece(c, z)->Ok_0 } else if z.first { seq![91u8, 93u8] } else { seq![93u8] }
}
pub open spec fn same_reader(a: RS, b: RS) -> bool { same_source(a.s, b.s) && a.s.pos == b.s.pos && a.hdr == b.hdr && (a.hdr ==> a.size == b.size) && a.finished == b.finished && a.failed == b.failed }
// the state k after a call in state z
pub open spec fn after_call(c: TC, z: TS, k: TS) -> bool {
    if t_over(z) { k == z }
    else if next(z.h).failed { k.st.code != 0 && (!z.h.failed ==> k.st.code == 13) && k.fin == z.fin }
    else if yields(z.h) {
        match t_piece(c, z) {
            StatusOr::Err(e) => k.st == e && k.fin == z.fin,
            StatusOr::Ok(_) => {
                let n = next(z.h);
                k.st.code == 0 && k.fin == !c.streaming && k.first == (z.first && !as_array(c)) && same_reader(k.h, RS { s: InStream { pos: n.s.pos + n.size, ..n.s }, ..n })
            }
        }
    }
    else { k.st.code == 0 && k.first == z.first && k.fin == t_ends(c, z) && same_reader(k.h, next(z.h)) }
}
// ---- what this means for every schedule of arrivals and calls
pub struct TH { pub z: TS, pub out: Seq<(int, int)>, pub text: Seq<u8> }     // out: where the messages translated so far are; text: what was returned so far
pub open spec fn t_step(c: TC, x: TH, e: Ev, y: TH) -> bool {
    match e {
        Ev::Call => {
            &&& after_call(c, x.z, y.z)
            &&& y.text == (if gives(c, x.z) { x.text + returned(c, x.z) } else { x.text })
            &&& y.out == (if gives(c, x.z) && yields(x.z.h) { x.out.push((next(x.z.h).s.pos, next(x.z.h).size)) } else { x.out })
        }
        _ => y == (TH { z: TS { h: ev_step(Hist { h: x.z.h, out: x.out }, e).h, ..x.z }, ..x }),
    }
}
pub open spec fn t_start(x: TH) -> bool { x.z.h == start_hist().h && x.z.first && !x.z.fin && x.z.st.code == 0 && x.out.len() == 0 && x.text.len() == 0 }
pub open spec fn t_trace(c: TC, t: Seq<TH>, es: Seq<Ev>) -> bool { t.len() == es.len() + 1 && t_start(t[0]) && forall|i: int| 0 <= i < es.len() ==> t_step(c, t[i], #[trigger] es[i], t[i + 1]) }
// the JSON of the message at m of the bytes d
pub open spec fn json_at(c: TC, d: Seq<u8>, m: (int, int)) -> StatusOr<Seq<u8>> { json_of(c.resolver, c.url, d.subrange(m.0, m.0 + m.1), c.opts.json_print_options) }
// "[" json "," json "," ... json
pub open spec fn array_of(c: TC, d: Seq<u8>, out: Seq<(int, int)>) -> Seq<u8> decreases out.len() {
    if out.len() == 0 { Seq::empty() } else { array_of(c, d, out.drop_last()) + seq![if out.len() == 1 { 91u8 } else { 44u8 }] + json_at(c, d, out.last())->Ok_0 }
}
pub open spec fn lines_of(c: TC, d: Seq<u8>, out: Seq<(int, int)>) -> Seq<u8> decreases out.len() {
    if out.len() == 0 { Seq::empty() } else { lines_of(c, d, out.drop_last()) + json_at(c, d, out.last())->Ok_0 + seq![10u8] }
}
pub open spec fn framed(c: TC, d: Seq<u8>, out: Seq<(int, int)>, fin: bool) -> Seq<u8> {
    if as_array(c) { array_of(c, d, out) + (if !fin { Seq::empty() } else if out.len() == 0 { seq![91u8, 93u8] } else { seq![93u8] }) }
    else if as_lines(c) { lines_of(c, d, out) }
    else if out.len() == 0 { Seq::empty() } else { json_at(c, d, out[0])->Ok_0 }
}
pub open spec fn th_ok(c: TC, x: TH) -> bool {
    &&& hist_ok(Hist { h: x.z.h, out: x.out })
    &&& x.text == framed(c, x.z.h.s.data, x.out, x.z.fin)
    &&& as_array(c) ==> x.z.first == (x.out.len() == 0)
    &&& !c.streaming ==> x.out.len() <= 1 && x.z.fin == (x.out.len() == 1)
    // a finished stream has been translated to its end
    &&& c.streaming && x.z.fin ==> x.z.h.s.fin && x.z.h.s.data.len() == out_end(x.out)
}
proof fn lemma_t_grow(c: TC, d: Seq<u8>, b: Seq<u8>, out: Seq<(int, int)>)
    requires forall|i: int| 0 <= i < out.len() ==> 0 <= (#[trigger] out[i]).0 && out[i].1 >= 0 && out[i].0 + out[i].1 <= d.len()
    ensures array_of(c, d + b, out) == array_of(c, d, out), lines_of(c, d + b, out) == lines_of(c, d, out), out.len() > 0 ==> json_at(c, d + b, out[0]) == json_at(c, d, out[0])
    decreases out.len()
{
    if out.len() > 0 {
        assert forall|i: int| 0 <= i < out.drop_last().len() implies 0 <= (#[trigger] out.drop_last()[i]).0 && out.drop_last()[i].1 >= 0 && out.drop_last()[i].0 + out.drop_last()[i].1 <= d.len() by { assert(out.drop_last()[i] == out[i]); }
        lemma_t_grow(c, d, b, out.drop_last());
        let m = out.last();
        assert(m == out[out.len() - 1]);
        assert((d + b).subrange(m.0, m.0 + m.1) =~= d.subrange(m.0, m.0 + m.1));
        assert((d + b).subrange(out[0].0, out[0].0 + out[0].1) =~= d.subrange(out[0].0, out[0].0 + out[0].1));
    }
}
proof fn lemma_same_reader(a: RS, b: RS, out: Seq<(int, int)>)
    requires same_reader(a, b), hist_ok(Hist { h: b, out })
    ensures hist_ok(Hist { h: a, out })
{}
pub proof fn lemma_t_step(c: TC, x: TH, e: Ev, y: TH)
    requires th_ok(c, x), t_step(c, x, e, y)
    ensures y.z.st.code == 0 || y.z.st == x.z.st ==> th_ok(c, y)
{
    let hx = Hist { h: x.z.h, out: x.out };
    let d = x.z.h.s.data;
    lemma_step_ok(hx, e);
    match e {
        Ev::Arrive(b) => {
            assert forall|i: int| 0 <= i < x.out.len() implies 0 <= (#[trigger] x.out[i]).0 && x.out[i].1 >= 0 && x.out[i].0 + x.out[i].1 <= d.len() by { assert(frame_at(x.out, i, d)); }
            lemma_t_grow(c, d, b, x.out);
        }
        Ev::End => {}
        Ev::Call => {
            if y.z.st.code == 0 && !t_over(x.z) {
                let n = next(x.z.h);
                lemma_call_over(x.z.h);
                lemma_same_reader(y.z.h, ev_step(hx, e).h, y.out);
                if yields(x.z.h) {
                    let m = (n.s.pos, n.size);
                    assert(y.out.drop_last() =~= x.out);
                    assert(y.out.last() == m);
                    assert(message_at(x.z.h) == d.subrange(m.0, m.0 + m.1));
                    assert(gives(c, x.z));
                    let j = json_at(c, d, m)->Ok_0;
                    if as_array(c) { assert(y.text =~= framed(c, d, y.out, y.z.fin)); }
                    else if as_lines(c) { assert(lines_of(c, d, y.out) == lines_of(c, d, x.out) + j + seq![10u8]); assert(y.text =~= framed(c, d, y.out, y.z.fin)); }
                    else { assert(x.out.len() == 0); assert(y.out[0] == m); assert(y.text =~= j); }
                } else {
                    assert(y.text =~= framed(c, d, y.out, y.z.fin));
                }
            }
        }
    }
}
proof fn lemma_call_over(h: RS)
    ensures next(h).s.data == h.s.data, next(h).s.end == h.s.end, next(h).s.fin == h.s.fin
{}
// as long as no error has been reported: what was returned is the JSON of the first frames in the stated framing, complete once the stream is finished
pub proof fn lemma_t_trace(c: TC, t: Seq<TH>, es: Seq<Ev>, k: int)
    requires t_trace(c, t, es), 0 <= k < t.len(), t[k].z.st.code == 0
    ensures th_ok(c, t[k])
    decreases k
{
    if k > 0 {
        assert(t_step(c, t[k - 1], es[k - 1], t[k]));
        assert(t[k - 1].z.st.code == 0);
        lemma_t_trace(c, t, es, k - 1);
        lemma_t_step(c, t[k - 1], es[k - 1], t[k]);
    } else {
        lemma_hist(Seq::empty());
        assert(run_hist(Seq::empty()) == start_hist());
        assert(t[0].out =~= start_hist().out);
        assert(t[0].text =~= framed(c, t[0].z.h.s.data, t[0].out, t[0].z.fin));
    }
}
// errors: exactly the framing errors of the reader and the errors of the JSON translation; they are final
pub proof fn lemma_t_error(c: TC, x: TH, y: TH)
    requires th_ok(c, x), x.z.st.code == 0, t_step(c, x, Ev::Call, y)
    ensures y.z.st.code != 0 <==> !x.z.fin && (next(x.z.h).failed || yields(x.z.h) && t_piece(c, x.z) is Err)
{}
