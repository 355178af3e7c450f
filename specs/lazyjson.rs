// ---- lazy JSON request translation (property C23) ---------------------------------------------------------------------
// The parts around LazyRequestTranslator are arbitrary: every answer they give may depend on everything they were sent.
pub struct Src { pub id: int, pub k: int }                                  // k: calls of Next so far
pub uninterp spec fn src_answer(id: int, k: int) -> Option<Seq<u8>>;       // None: end of input; empty: nothing yet
// the input delivers finitely many non-empty chunks before it has nothing at the moment or ends
pub uninterp spec fn src_left(id: int, k: int) -> nat;
pub struct Parser { pub id: int, pub fed: Seq<Seq<u8>>, pub ends: int }    // what it was given, how often it was told the end
pub uninterp spec fn parse_answer(id: int, fed: Seq<Seq<u8>>, ends: int) -> Status;
pub uninterp spec fn finish_answer(id: int, fed: Seq<Seq<u8>>, ends: int) -> Status;
pub struct Out { pub id: int, pub polls: int }                              // polls: calls of NextMessage so far
pub uninterp spec fn out_message(id: int, p: Parser, polls: int) -> Option<Seq<u8>>;
pub uninterp spec fn out_fin(id: int, p: Parser, polls: int) -> bool;
pub uninterp spec fn out_status(id: int, p: Parser, polls: int) -> Status;

pub struct Lazy { pub src: Src, pub p: Parser, pub out: Out, pub seen: bool, pub st: Status }
pub open spec fn braces() -> Seq<u8> { seq![123u8, 125u8] }
pub open spec fn lz_hit(z: Lazy) -> bool { out_message(z.out.id, z.p, z.out.polls) is Some }
pub open spec fn lz_message(z: Lazy) -> Seq<u8> { out_message(z.out.id, z.p, z.out.polls)->0 }
pub open spec fn polled(z: Lazy) -> Lazy { Lazy { out: Out { polls: z.out.polls + 1, ..z.out }, ..z } }
pub open spec fn lz_finished(z: Lazy) -> bool { out_fin(z.out.id, z.p, z.out.polls) || z.st.code != 0 }
// the status after the parser answered a: its error, or else the status of the translation
pub open spec fn checked(z: Lazy, a: Status) -> Lazy { Lazy { st: if a.code != 0 { a } else { out_status(z.out.id, z.p, z.out.polls) }, ..z } }
pub open spec fn given(z: Lazy, b: Seq<u8>) -> Lazy {
    let p = Parser { fed: z.p.fed.push(b), ..z.p };
    checked(Lazy { p, ..z }, parse_answer(p.id, p.fed, p.ends))
}
pub open spec fn ended(z: Lazy) -> Lazy {
    let p = Parser { ends: z.p.ends + 1, ..z.p };
    checked(Lazy { p, ..z }, finish_answer(p.id, p.fed, p.ends))
}
// once "{}" was parsed for an empty input there is a message, or nothing more will come (JSON parser and translators)
pub open spec fn gave_braces(z: Lazy) -> bool { !z.seen && z.p.fed.len() > 0 && z.p.fed.last() == braces() }
#[verifier::external_body]
pub proof fn axiom_input()
    ensures forall|id: int, k: int| (#[trigger] src_answer(id, k)) is Some && src_answer(id, k)->0.len() > 0 ==> src_left(id, k + 1) < src_left(id, k),
        forall|z: Lazy| #![trigger gave_braces(z)] #![trigger polled(z)] gave_braces(z) ==> lz_hit(z) || lz_finished(polled(z))
{ }
pub open spec fn lz_left(z: Lazy) -> int { if gave_braces(z) { 0 } else { src_left(z.src.id, z.src.k) as int + 1 } }
// one attempt to translate more input, and whether it may have produced a message
pub open spec fn chunk_step(z: Lazy) -> (bool, Lazy) {
    if lz_finished(z) { (false, z) } else {
        let y = Lazy { src: Src { k: z.src.k + 1, ..z.src }, ..z };
        match src_answer(z.src.id, z.src.k) {
            Option::None => if !z.seen { (given(y, braces()).st.code == 0, given(y, braces())) } else { (false, ended(y)) },
            Option::Some(b) => if b.len() == 0 { (false, y) } else { (given(Lazy { seen: true, ..y }, b).st.code == 0, given(Lazy { seen: true, ..y }, b)) },
        }
    }
}
// the state in which the n-th poll of a call is made, if the call gets that far
pub open spec fn lz_run(z: Lazy, n: int) -> Lazy decreases n { if n <= 0 { z } else { chunk_step(polled(lz_run(z, n - 1))).1 } }
pub open spec fn lz_goes(z: Lazy, n: int) -> bool { forall|j: int| 0 <= j < n ==> !lz_hit(#[trigger] lz_run(z, j)) && chunk_step(polled(lz_run(z, j))).0 }
pub open spec fn lz_after(z: Lazy, n: int) -> Lazy { let y = lz_run(z, n); if lz_hit(y) { polled(y) } else { chunk_step(polled(y)).1 } }

// ---- what this means for every schedule: calls and arrivals in any order
// the data chunks among the first k answers of the source
pub open spec fn chunks(id: int, k: int) -> Seq<Seq<u8>> decreases k {
    if k <= 0 { Seq::empty() } else { match src_answer(id, k - 1) { Option::Some(b) => if b.len() > 0 { chunks(id, k - 1).push(b) } else { chunks(id, k - 1) }, Option::None => chunks(id, k - 1) } }
}
pub open spec fn ended_before(id: int, k: int) -> bool { exists|i: int| 0 <= i < k && #[trigger] src_answer(id, i) is None }
// an input does not go on after its end
pub open spec fn src_ok(id: int) -> bool { forall|i: int, j: int| 0 <= i < j && #[trigger] src_answer(id, i) is None ==> #[trigger] src_answer(id, j) is None }
pub open spec fn lz_inv(z: Lazy) -> bool {
    &&& 0 <= z.src.k
    &&& z.seen == (chunks(z.src.id, z.src.k).len() > 0)
    // the parser was given the data read so far, chunk by chunk; without data, only "{}" once the input has ended
    &&& z.seen ==> z.p.fed == chunks(z.src.id, z.src.k)
    &&& !z.seen ==> z.p.ends == 0 && (forall|i: int| 0 <= i < z.p.fed.len() ==> #[trigger] z.p.fed[i] == braces()) && (z.p.fed.len() > 0 ==> ended_before(z.src.id, z.src.k))
    &&& z.p.ends > 0 ==> z.seen && ended_before(z.src.id, z.src.k)
    &&& 0 <= z.p.ends
}
pub proof fn lemma_chunk_inv(z: Lazy)
    requires lz_inv(z), src_ok(z.src.id)
    ensures lz_inv(polled(z)), lz_inv(chunk_step(z).1)
{
    let y = chunk_step(z).1;
    if !lz_finished(z) {
        let a = src_answer(z.src.id, z.src.k);
        assert(chunks(z.src.id, z.src.k + 1) == match a { Option::Some(b) => if b.len() > 0 { chunks(z.src.id, z.src.k).push(b) } else { chunks(z.src.id, z.src.k) }, Option::None => chunks(z.src.id, z.src.k) });
        if ended_before(z.src.id, z.src.k) {
            let i = choose|i: int| 0 <= i < z.src.k && #[trigger] src_answer(z.src.id, i) is None;
            assert(src_answer(z.src.id, z.src.k) is None);
            assert(src_answer(z.src.id, i) is None && 0 <= i < z.src.k + 1);
            assert(ended_before(z.src.id, z.src.k + 1));
        }
        match a {
            Option::None => { assert(ended_before(z.src.id, z.src.k + 1)) by { assert(src_answer(z.src.id, z.src.k) is None); } }
            Option::Some(b) => { if b.len() > 0 && !z.seen { assert(z.p.fed =~= chunks(z.src.id, z.src.k)); } }
        }
    }
}
pub proof fn lemma_run_inv(z: Lazy, n: int)
    requires lz_inv(z), src_ok(z.src.id), 0 <= n
    ensures lz_inv(lz_run(z, n)), lz_run(z, n).src.id == z.src.id, lz_inv(lz_after(z, n)), lz_after(z, n).src.id == z.src.id
    decreases n
{
    if n > 0 { lemma_run_inv(z, n - 1); lemma_chunk_inv(lz_run(z, n - 1)); lemma_chunk_inv(polled(lz_run(z, n - 1))); }
    lemma_chunk_inv(lz_run(z, n));
    lemma_chunk_inv(polled(lz_run(z, n)));
}
// every history of calls: call i makes ns[i] + 1 polls
pub open spec fn lz_hist(z: Lazy, ns: Seq<int>) -> Lazy decreases ns.len() { if ns.len() == 0 { z } else { lz_after(lz_hist(z, ns.drop_last()), ns.last()) } }
pub proof fn lemma_lz_hist(z: Lazy, ns: Seq<int>)
    requires src_ok(z.src.id), z.src.k == 0, z.p.fed.len() == 0, z.p.ends == 0, !z.seen, forall|i: int| 0 <= i < ns.len() ==> 0 <= #[trigger] ns[i]
    ensures lz_inv(lz_hist(z, ns)), lz_hist(z, ns).src.id == z.src.id
    decreases ns.len()
{
    if ns.len() > 0 { lemma_lz_hist(z, ns.drop_last()); lemma_run_inv(lz_hist(z, ns.drop_last()), ns.last()); }
    else { assert(chunks(z.src.id, 0).len() == 0); }
}
// no input is read while a message is available; nothing is read after an error or the end of the translation
pub proof fn lemma_lazy(z: Lazy, n: int)
    requires lz_goes(z, n), 0 <= n
    ensures n > 0 ==> !lz_hit(z) && !lz_finished(polled(z)),
        lz_hit(z) && n == 0 ==> lz_after(z, n).src == z.src && lz_after(z, n).p == z.p,
        lz_finished(polled(z)) && n == 0 ==> lz_after(z, n).src == z.src && lz_after(z, n).p == z.p && lz_after(z, n).st == z.st
{ if n > 0 { assert(!lz_hit(lz_run(z, 0))); assert(chunk_step(polled(lz_run(z, 0))).0); } }

// ---- how JsonRequestTranslator puts the parts together
pub struct STr { pub id: int }
pub struct MTr { pub id: int }
pub struct Sink { pub id: int }
pub uninterp spec fn made_stream(resolver: int, delim: bool, info: C_RequestInfo) -> int;
pub uninterp spec fn made_single(resolver: int, delim: bool, info: C_RequestInfo) -> int;
pub uninterp spec fn parser_of(w: Sink) -> int;
pub uninterp spec fn lazy_out(z: C_LazyRequestTranslator) -> Out;
pub open spec fn made_translator(resolver: int, info: C_RequestInfo, streaming: bool, delim: bool) -> int { if streaming { made_stream(resolver, delim, info) } else { made_single(resolver, delim, info) } }
// the output reads json_input, parses it into the translator that `streaming` asks for and hands out what that one makes
pub open spec fn made_json(resolver: int, input: Src, info: C_RequestInfo, streaming: bool, delim: bool, out: Option<Out>) -> bool {
    out == Some(lazy_out(lazy_over(input, made_translator(resolver, info, streaming, delim))))
}
pub open spec fn lazy_over(input: Src, t: int) -> C_LazyRequestTranslator {
    C_LazyRequestTranslator { input_json_: input, json_parser_: Parser { id: parser_of(Sink { id: t }), fed: Seq::empty(), ends: 0 }, translated_: Out { id: t, polls: 0 }, seen_input_: false, status_: status_ok() }
}
