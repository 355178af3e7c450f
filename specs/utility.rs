// ---- google.api.HttpRule (property C13) ----------------------------------------------------------------------------
// case_ is the field number of the oneof member set (0: none); text is the path of that member
pub struct HttpRule { pub case_: i32, pub text: Seq<u8>, pub kind: Seq<u8>, pub body: Seq<u8>, pub additional: Seq<HttpRule> }
pub open spec fn rule_text(r: HttpRule, c: int) -> Seq<u8> { if r.case_ == c { r.text } else { Seq::empty() } }
pub open spec fn rule_kind(r: HttpRule) -> Seq<u8> { if r.case_ == 8 { r.kind } else { Seq::empty() } }
// templates shorter than 2^31-1 bytes, throughout the rule
pub open spec fn small(r: HttpRule) -> bool decreases r {
    r.text.len() < 0x7fff_ffff && r.additional.len() <= 0x7fff_ffff && forall|i: int| 0 <= i < r.additional.len() ==> small(#[trigger] r.additional[i])
}
pub struct ST { pub h: Seq<Reg>, pub verbs: Set<Seq<u8>>, pub ok: bool }
pub open spec fn reg1(s: ST, hm: Seq<u8>, path: Seq<u8>, body: Seq<u8>, sys: Set<Seq<u8>>, m: int, fail: bool) -> ST {
    if !tmpl_ok(path) { ST { ok: false, ..s } } else {
        let g = reg_of(hm, path, body, sys, m);
        let ok = !(fail && after(s.h, g.t, g.key) is Some);
        ST { h: s.h.push(g), verbs: if ok && tmpl_verb(path).len() > 0 { s.verbs.insert(tmpl_verb(path)) } else { s.verbs }, ok }
    }
}
// the HTTP method a rule's own pattern stands for
pub open spec fn rule_method(r: HttpRule) -> Seq<u8> {
    if r.case_ == 2 { seq![71u8, 69u8, 84u8] } else if r.case_ == 3 { seq![80u8, 85u8, 84u8] } else if r.case_ == 4 { seq![80u8, 79u8, 83u8, 84u8] }
    else if r.case_ == 5 { seq![68u8, 69u8, 76u8, 69u8, 84u8, 69u8] } else if r.case_ == 6 { seq![80u8, 65u8, 84u8, 67u8, 72u8] } else { r.kind }
}
pub open spec fn has_pattern(r: HttpRule) -> bool { 2 <= r.case_ <= 6 || r.case_ == 8 }
pub open spec fn reg_own(s: ST, r: HttpRule, sys: Set<Seq<u8>>, m: int, fail: bool) -> ST {
    if has_pattern(r) { reg1(s, rule_method(r), r.text, r.body, sys, m, fail) } else { ST { ok: true, ..s } }
}
// the rule itself, then its additional bindings in order until one fails
pub open spec fn reg_rule(s: ST, r: HttpRule, sys: Set<Seq<u8>>, m: int, fail: bool) -> ST decreases r, r.additional.len() + 1 {
    reg_more(s, r, r.additional.len() as int, sys, m, fail)
}
pub open spec fn reg_more(s: ST, r: HttpRule, n: int, sys: Set<Seq<u8>>, m: int, fail: bool) -> ST decreases r, n {
    if n <= 0 || n > r.additional.len() { reg_own(s, r, sys, m, fail) }
    else {
        let p = reg_more(s, r, n - 1, sys, m, fail);
        if !p.ok { p } else { reg_rule(p, r.additional[n - 1], sys, m, fail) }
    }
}

pub proof fn lemma_stuck(s: ST, r: HttpRule, i: int, n: int, sys: Set<Seq<u8>>, m: int, fail: bool)
    ensures 0 <= i <= n <= r.additional.len() && !reg_more(s, r, i, sys, m, fail).ok ==> reg_more(s, r, n, sys, m, fail) == reg_more(s, r, i, sys, m, fail)
    decreases n - i
{
    if i < n && 0 <= i && n <= r.additional.len() { lemma_stuck(s, r, i, n - 1, sys, m, fail); }
}

pub proof fn lemma_stuck_at(r: HttpRule, i: int, sys: Set<Seq<u8>>, m: int, fail: bool)
    ensures forall|s: ST| 0 <= i <= r.additional.len() && !reg_more(s, r, i, sys, m, fail).ok ==> #[trigger] reg_rule(s, r, sys, m, fail) == reg_more(s, r, i, sys, m, fail)
{
    assert forall|s: ST| 0 <= i <= r.additional.len() && !reg_more(s, r, i, sys, m, fail).ok implies #[trigger] reg_rule(s, r, sys, m, fail) == reg_more(s, r, i, sys, m, fail) by {
        lemma_stuck(s, r, i, r.additional.len() as int, sys, m, fail);
    }
}
pub proof fn lemma_stuck_all(r: HttpRule, sys: Set<Seq<u8>>, m: int, fail: bool)
    ensures forall|s: ST, i: int| 0 <= i <= r.additional.len() && !(#[trigger] reg_more(s, r, i, sys, m, fail)).ok ==> reg_rule(s, r, sys, m, fail) == reg_more(s, r, i, sys, m, fail)
{
    assert forall|s: ST, i: int| 0 <= i <= r.additional.len() && !(#[trigger] reg_more(s, r, i, sys, m, fail)).ok implies reg_rule(s, r, sys, m, fail) == reg_more(s, r, i, sys, m, fail) by {
        lemma_stuck(s, r, i, r.additional.len() as int, sys, m, fail);
    }
}
