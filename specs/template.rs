// ---- HTTP template grammar (properties C01, C02) ------------------------------------------------------------------
// Deterministic recursive descent over the template bytes; pos is the first byte not consumed.
pub type Var = C_HttpTemplate_Variable;
pub struct PR { pub ok: bool, pub pos: int, pub segs: Seq<Seq<u8>>, pub vars: Seq<Var>, pub inv: bool }
pub open spec fn at(s: Seq<u8>, i: int, c: u8) -> bool { 0 <= i < s.len() && s[i] == c }
pub open spec fn star() -> Seq<u8> { seq![42u8] }
pub open spec fn star2() -> Seq<u8> { seq![42u8, 42u8] }
pub open spec fn any_seg() -> Seq<u8> { seq![47u8, 46u8] }
// LITERAL: up to '/', ':' or '}';  IDENT: up to '.', '}' or '='
pub open spec fn lit_stop(c: u8) -> bool { c == 47 || c == 58 || c == 125 }
pub open spec fn id_stop(c: u8) -> bool { c == 46 || c == 125 || c == 61 }
pub open spec fn lit_end(s: Seq<u8>, i: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() || lit_stop(s[i]) { i } else { lit_end(s, i + 1) }
}
pub open spec fn id_end(s: Seq<u8>, i: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() || id_stop(s[i]) { i } else { id_end(s, i + 1) }
}
pub open spec fn pfail() -> PR { PR { ok: false, pos: 0, segs: Seq::empty(), vars: Seq::empty(), inv: false } }
// FieldPath = IDENT { "." IDENT }
pub struct FP { pub ok: bool, pub pos: int, pub ids: Seq<Seq<u8>> }
pub open spec fn p_path(s: Seq<u8>, i: int, ids: Seq<Seq<u8>>) -> FP decreases s.len() - i {
    let e = id_end(s, i);
    if i < 0 || e <= i { FP { ok: false, pos: 0, ids: Seq::empty() } } else {
        let ids2 = ids.push(s.subrange(i, e));
        if at(s, e, 46) { p_path(s, e + 1, ids2) } else { FP { ok: true, pos: e, ids: ids2 } }
    }
}
pub open spec fn set_last(vs: Seq<Var>, v: Var) -> Seq<Var> { vs.update(vs.len() - 1, v) }
// Segment = "*" | "**" | LITERAL | Variable
pub open spec fn p_segment(s: Seq<u8>, i: int, segs: Seq<Seq<u8>>, vars: Seq<Var>, inv: bool) -> PR decreases s.len() - i, 1int {
    if i < 0 || i >= s.len() { pfail() }
    else if s[i] == 42 {
        if at(s, i + 1, 42) {
            if inv && vars.len() == 0 { pfail() } else {
                PR { ok: true, pos: i + 2, segs: segs.push(star2()), inv: inv,
                     vars: if inv { set_last(vars, C_HttpTemplate_Variable { has_wildcard_path: true, ..vars.last() }) } else { vars } }
            }
        } else { PR { ok: true, pos: i + 1, segs: segs.push(star()), vars: vars, inv: inv } }
    }
    else if s[i] == 123 { p_variable(s, i, segs, vars, inv) }
    else {
        let e = lit_end(s, i);
        if e <= i { pfail() } else { PR { ok: true, pos: e, segs: segs.push(s.subrange(i, e)), vars: vars, inv: inv } }
    }
}
// Variable = "{" FieldPath [ "=" Segments ] "}", not nested
pub open spec fn p_variable(s: Seq<u8>, i: int, segs: Seq<Seq<u8>>, vars: Seq<Var>, inv: bool) -> PR decreases s.len() - i, 0int {
    if !at(s, i, 123) || inv { pfail() } else {
        let f = p_path(s, i + 1, Seq::empty());
        if !f.ok || f.pos <= i { pfail() } else {
            let v = C_HttpTemplate_Variable { start_segment: ws32(segs.len() as int) as i32, end_segment: 0i32, field_path: f.ids, has_wildcard_path: false };
            let r = if at(s, f.pos, 61) { p_segments(s, f.pos + 1, segs, vars.push(v), true) }
                    else { PR { ok: true, pos: f.pos, segs: segs.push(star()), vars: vars.push(v), inv: true } };
            if !r.ok || r.vars.len() == 0 || !at(s, r.pos, 125) { pfail() } else {
                let w = C_HttpTemplate_Variable { end_segment: ws32(r.segs.len() as int) as i32, ..r.vars.last() };
                if w.field_path.len() == 0 || w.start_segment >= w.end_segment { pfail() } else {
                    PR { ok: true, pos: r.pos + 1, segs: r.segs, vars: set_last(r.vars, w), inv: false }
                }
            }
        }
    }
}
// Segments = Segment { "/" Segment }
pub open spec fn p_segments(s: Seq<u8>, i: int, segs: Seq<Seq<u8>>, vars: Seq<Var>, inv: bool) -> PR decreases s.len() - i, 2int {
    let r = p_segment(s, i, segs, vars, inv);
    if r.ok && at(s, r.pos, 47) && r.pos > i { p_segments(s, r.pos + 1, r.segs, r.vars, r.inv) } else { r }
}
// what a parse positioned after a segment still has to do
pub open spec fn p_rest(s: Seq<u8>, i: int, segs: Seq<Seq<u8>>, vars: Seq<Var>, inv: bool) -> PR {
    if at(s, i, 47) { p_segments(s, i + 1, segs, vars, inv) } else { PR { ok: true, pos: i, segs: segs, vars: vars, inv: inv } }
}
// Template = "/" Segments [ ":" LITERAL ]
pub struct TR { pub ok: bool, pub pos: int, pub segs: Seq<Seq<u8>>, pub vars: Seq<Var>, pub verb: Seq<u8> }
pub open spec fn tfail() -> TR { TR { ok: false, pos: 0, segs: Seq::empty(), vars: Seq::empty(), verb: Seq::empty() } }
pub open spec fn p_template(s: Seq<u8>) -> TR {
    if !at(s, 0, 47) { tfail() } else {
        let r = p_segments(s, 1, Seq::empty(), Seq::empty(), false);
        if !r.ok { tfail() }
        else if at(s, r.pos, 58) {
            let e = lit_end(s, r.pos + 1);
            if e <= r.pos + 1 { tfail() } else { TR { ok: true, pos: e, segs: r.segs, vars: r.vars, verb: s.subrange(r.pos + 1, e) } }
        } else { TR { ok: true, pos: r.pos, segs: r.segs, vars: r.vars, verb: Seq::empty() } }
    }
}
// only literal segments may follow a "**"
pub open spec fn parts_ok(segs: Seq<Seq<u8>>) -> bool {
    forall|i: int, j: int| #![trigger segs[i], segs[j]] 0 <= i < j < segs.len() && segs[i] == star2() ==> segs[j] != star() && segs[j] != star2() && segs[j] != any_seg()
}
// index of the first "**" at or after i, or the number of segments
pub open spec fn wild_pos(segs: Seq<Seq<u8>>, i: int) -> int decreases segs.len() - i {
    if i < 0 || i >= segs.len() { segs.len() as int } else if segs[i] == star2() { i } else { wild_pos(segs, i + 1) }
}
pub proof fn lemma_wild_char(segs: Seq<Seq<u8>>, i: int)
    requires 0 <= i <= segs.len(),
    ensures i <= wild_pos(segs, i) <= segs.len(), wild_pos(segs, i) < segs.len() ==> segs[wild_pos(segs, i)] == star2(), forall|k: int| #![trigger segs[k]] i <= k < wild_pos(segs, i) ==> segs[k] != star2(),
    decreases segs.len() - i
{
    if i < segs.len() && segs[i] != star2() { lemma_wild_char(segs, i + 1); }
}
// a variable containing "**" reports its end, a variable after a "**" its start and end, relative to the end of the segments
pub open spec fn post_var(v: Var, segs: Seq<Seq<u8>>) -> Var {
    let n = segs.len() as int;
    if v.start_segment > wild_pos(segs, 0) { C_HttpTemplate_Variable { start_segment: (v.start_segment - n - 1) as i32, end_segment: (v.end_segment - n - 1) as i32, ..v } }
    else if v.has_wildcard_path { C_HttpTemplate_Variable { end_segment: (v.end_segment - n - 1) as i32, ..v } } else { v }
}
pub open spec fn post_vars(vs: Seq<Var>, segs: Seq<Seq<u8>>) -> Seq<Var> { Seq::new(vs.len(), |k: int| post_var(vs[k], segs)) }
pub open spec fn tmpl_ok(s: Seq<u8>) -> bool {
    s == seq![47u8] || ({ let t = p_template(s); t.ok && t.pos >= s.len() && parts_ok(t.segs) })
}
pub open spec fn tmpl_segs(s: Seq<u8>) -> Seq<Seq<u8>> { if s == seq![47u8] { Seq::empty() } else { p_template(s).segs } }
pub open spec fn tmpl_verb(s: Seq<u8>) -> Seq<u8> { if s == seq![47u8] { Seq::empty() } else { p_template(s).verb } }
pub open spec fn tmpl_vars(s: Seq<u8>) -> Seq<Var> {
    if s == seq![47u8] { Seq::empty() } else { post_vars(p_template(s).vars, p_template(s).segs) }
}

// a - n - 1 computed in size_t and stored in an int
pub proof fn lemma_rel(n: int)
    requires 0 <= n < 0x7fff_ffff
    ensures forall|a: int| 0 <= a <= n ==> #[trigger] ws32(wu64(wu64(a - n) - 1)) == a - n - 1,
            forall|a: int| 0 <= a <= n ==> #[trigger] ws32(a - n - 1) == a - n - 1,
{ }

// ---- parser state: tb is the first byte not consumed, te is tb (nothing looked at) or tb + 1 -----------------------
pub open spec fn wf_pos(s: Seq<u8>, tb: int, te: int) -> bool { 0 <= tb <= te <= tb + 1 && te <= s.len() && s.len() < 0x7fff_ffff }
pub open spec fn vars_ok(vars: Seq<Var>, inv: bool, n: int) -> bool {
    (inv ==> vars.len() > 0)
    && (forall|k: int| 0 <= k < vars.len() ==> 0 <= (#[trigger] vars[k]).start_segment && 0 <= vars[k].end_segment <= n && vars[k].start_segment <= n)
}
// every segment takes at least one byte
pub open spec fn segs_ok(segs: Seq<Seq<u8>>, tb: int) -> bool { segs.len() <= tb }
pub proof fn lemma_lit_end(s: Seq<u8>, i: int)
    ensures 0 <= i <= s.len() ==> i <= lit_end(s, i) <= s.len(),
        0 <= i <= s.len() ==> forall|k: int| i <= k < lit_end(s, i) ==> !lit_stop(#[trigger] s[k]),
        0 <= i <= s.len() && lit_end(s, i) < s.len() ==> lit_stop(s[lit_end(s, i)]),
    decreases s.len() - i
{ if 0 <= i < s.len() && !lit_stop(s[i]) { lemma_lit_end(s, i + 1); } }
pub proof fn lemma_id_end(s: Seq<u8>, i: int)
    ensures 0 <= i <= s.len() ==> i <= id_end(s, i) <= s.len(),
        0 <= i <= s.len() && id_end(s, i) < s.len() ==> id_stop(s[id_end(s, i)]),
    decreases s.len() - i
{ if 0 <= i < s.len() && !id_stop(s[i]) { lemma_id_end(s, i + 1); } }
pub proof fn lemma_path(s: Seq<u8>, i: int, ids: Seq<Seq<u8>>)
    ensures 0 <= i <= s.len() && p_path(s, i, ids).ok ==> i < p_path(s, i, ids).pos <= s.len() && p_path(s, i, ids).ids.len() > ids.len(),
    decreases s.len() - i
{
    lemma_id_end(s, i);
    let e = id_end(s, i);
    if 0 <= i <= s.len() && e > i && at(s, e, 46) { lemma_path(s, e + 1, ids.push(s.subrange(i, e))); }
}
// inside a variable no other variable is opened or closed
pub proof fn lemma_inner(s: Seq<u8>, i: int, segs: Seq<Seq<u8>>, vars: Seq<Var>)
    ensures p_segments(s, i, segs, vars, true).ok ==> p_segments(s, i, segs, vars, true).inv && p_segments(s, i, segs, vars, true).vars.len() == vars.len()
            && p_segments(s, i, segs, vars, true).segs.len() > segs.len()
            && (vars.len() > 0 ==> p_segments(s, i, segs, vars, true).vars.last().start_segment == vars.last().start_segment
                && p_segments(s, i, segs, vars, true).vars.last().field_path == vars.last().field_path),
    decreases s.len() - i
{
    let r = p_segment(s, i, segs, vars, true);
    if r.ok && at(s, r.pos, 47) && r.pos > i { lemma_inner(s, r.pos + 1, r.segs, r.vars); }
}
