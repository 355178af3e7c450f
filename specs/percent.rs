// ---- percent-decoding (property C03) ---------------------------------------------------------------------------
pub open spec fn is_hex(c: u8) -> bool { (48 <= c <= 57) || (65 <= c <= 70) || (97 <= c <= 102) }
pub open spec fn hex_val(c: u8) -> int { if 48 <= c <= 57 { c - 48 } else if 65 <= c <= 70 { c - 55 } else { c - 87 } }
// RFC 6570 reserved: ! # $ & ' ( ) * + , / : ; = ? @ [ ]
pub open spec fn is_reserved(c: u8) -> bool {
    c == 33 || c == 35 || c == 36 || c == 38 || c == 39 || c == 40 || c == 41 || c == 42 || c == 43 || c == 44 || c == 47
    || c == 58 || c == 59 || c == 61 || c == 63 || c == 64 || c == 91 || c == 93
}
// mode 0: all except reserved, 1: all except slash, 2: all
pub open spec fn keeps(mode: int, c: u8) -> bool { (mode == 0 && is_reserved(c)) || (mode == 1 && c == 47) }
pub open spec fn esc_val(s: Seq<u8>, i: int) -> u8 { (hex_val(s[i + 1]) * 16 + hex_val(s[i + 2])) as u8 }
pub open spec fn esc_at(s: Seq<u8>, i: int) -> bool { 0 <= i && i + 2 < s.len() && s[i] == 37 && is_hex(s[i + 1]) && is_hex(s[i + 2]) }
// number of source bytes replaced at i: 0 (copied), 1 ("+"), 3 (escape)
pub open spec fn dec_len(s: Seq<u8>, i: int, mode: int, plus: bool) -> int {
    if plus && s[i] == 43 { 1 } else if esc_at(s, i) && !keeps(mode, esc_val(s, i)) { 3 } else { 0 }
}
pub open spec fn dec_char(s: Seq<u8>, i: int, mode: int, plus: bool) -> u8 { if plus && s[i] == 43 { 32 } else { esc_val(s, i) } }
// decoding of the suffix starting at i
pub open spec fn dec_from(s: Seq<u8>, i: int, mode: int, plus: bool) -> Seq<u8> decreases s.len() - i {
    if i < 0 || i >= s.len() { Seq::empty() } else {
        let k = dec_len(s, i, mode, plus);
        if k > 0 { seq![dec_char(s, i, mode, plus)] + dec_from(s, i + k, mode, plus) } else { seq![s[i]] + dec_from(s, i + 1, mode, plus) }
    }
}
pub open spec fn decode(s: Seq<u8>, mode: int, plus: bool) -> Seq<u8> { dec_from(s, 0, mode, plus) }
pub open spec fn escaped_from(s: Seq<u8>, i: int, mode: int, plus: bool) -> bool {
    exists|j: int| i <= j < s.len() && #[trigger] dec_len(s, j, mode, plus) > 0
}
pub proof fn lemma_dec_step(s: Seq<u8>, i: int, mode: int, plus: bool)
    ensures 0 <= i < s.len() ==> (dec_len(s, i, mode, plus) == 0 || dec_len(s, i, mode, plus) == 1 || dec_len(s, i, mode, plus) == 3),
        i >= s.len() ==> dec_from(s, i, mode, plus) =~= Seq::<u8>::empty(),
        0 <= i < s.len() && dec_len(s, i, mode, plus) > 0 ==> dec_from(s, i, mode, plus) =~= seq![dec_char(s, i, mode, plus)] + dec_from(s, i + dec_len(s, i, mode, plus), mode, plus),
        0 <= i < s.len() && dec_len(s, i, mode, plus) == 0 ==> dec_from(s, i, mode, plus) =~= seq![s[i]] + dec_from(s, i + 1, mode, plus),
        0 <= i < s.len() ==> i + dec_len(s, i, mode, plus) <= s.len(),
{}
// nothing to replace from i on: the suffix decodes to itself
pub proof fn lemma_dec_id(s: Seq<u8>, i: int, mode: int, plus: bool)
    ensures 0 <= i <= s.len() && !escaped_from(s, i, mode, plus) ==> dec_from(s, i, mode, plus) =~= s.subrange(i, s.len() as int),
    decreases s.len() - i
{
    if 0 <= i < s.len() && !escaped_from(s, i, mode, plus) {
        assert(dec_len(s, i, mode, plus) <= 0);
        lemma_dec_id(s, i + 1, mode, plus);
        assert(s.subrange(i, s.len() as int) =~= seq![s[i]] + s.subrange(i + 1, s.len() as int));
    }
}
