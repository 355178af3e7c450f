// ---- translation run-time: ghost conditions, nondeterminism, machine arithmetic -------------------------------
// tst turns a ghost condition into control flow; havoc is an arbitrary value (uninitialised or unspecified).
#[verifier::external_body]
pub fn tst(b: Ghost<bool>) -> (r: bool) ensures r == b@ { unimplemented!() }
#[verifier::external_body]
pub fn havoc<T>() -> (r: Ghost<T>) { unimplemented!() }
// some element of a non-empty set (iteration order of associative containers is unspecified)
#[verifier::external_body]
pub fn pick<T>(s: Ghost<Set<T>>) -> (r: Ghost<T>) requires !s@.is_empty() ensures s@.contains(r@) { unimplemented!() }
// an unknown choice
pub uninterp spec fn choice(a: int, b: int) -> bool;
// address of a new object: non-null and different from every live one
#[verifier::external_body]
pub fn fresh_addr(live: Ghost<spec_fn(int) -> bool>) -> (r: Ghost<int>) ensures r@ != 0, !(live@)(r@) { unimplemented!() }

pub open spec fn wu8(x: int) -> int { if 0 <= x < 0x100 { x } else { x % 0x100 } }
pub open spec fn wu16(x: int) -> int { if 0 <= x < 0x1_0000 { x } else { x % 0x1_0000 } }
pub open spec fn wu32(x: int) -> int { if 0 <= x < 0x1_0000_0000 { x } else { x % 0x1_0000_0000 } }
pub open spec fn wu64(x: int) -> int { if 0 <= x < 0x1_0000_0000_0000_0000 { x } else { x % 0x1_0000_0000_0000_0000 } }
pub open spec fn ws32(x: int) -> int {
    if -0x8000_0000 <= x < 0x8000_0000 { x } else { let m = x % 0x1_0000_0000; if m >= 0x8000_0000 { m - 0x1_0000_0000 } else { m } }
}
pub open spec fn ws64(x: int) -> int {
    if -0x8000_0000_0000_0000 <= x < 0x8000_0000_0000_0000 { x } else {
        let m = x % 0x1_0000_0000_0000_0000; if m >= 0x8000_0000_0000_0000 { m - 0x1_0000_0000_0000_0000 } else { m } }
}
// char is signed on this target
pub open spec fn sx8(c: u8) -> int { if c < 128 { c as int } else { c as int - 256 } }
pub open spec fn to_u8(x: int) -> u8 { (if 0 <= x < 256 { x } else { x % 256 }) as u8 }
// bitwise operations on unsigned values below 2^64
pub open spec fn bit_and(a: int, b: int) -> int { ((a as u64) & (b as u64)) as int }
pub open spec fn bit_or(a: int, b: int) -> int { ((a as u64) | (b as u64)) as int }
pub open spec fn bit_xor(a: int, b: int) -> int { ((a as u64) ^ (b as u64)) as int }
pub open spec fn c_div(a: int, b: int) -> int { if (a >= 0) == (b >= 0) { abs(a) / abs(b) } else { -(abs(a) / abs(b)) } }
pub open spec fn c_mod(a: int, b: int) -> int { a - b * c_div(a, b) }
pub open spec fn abs(a: int) -> int { if a >= 0 { a } else { -a } }
pub open spec fn pow2n(k: int) -> int decreases k { if k <= 0 { 1 } else { 2 * pow2n(k - 1) } }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }

// ---- std::string / absl::string_view / std::vector --------------------------------------------------------------
pub type Str = Seq<u8>;
pub open spec fn npos() -> int { 0xffff_ffff_ffff_ffff }
pub open spec fn max_size() -> int { 0x7fff_ffff_ffff_ffff }
// index of the first c at or after position i, or -1
pub open spec fn find_from(s: Seq<u8>, c: u8, i: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() { -1 } else if s[i] == c { i } else { find_from(s, c, i + 1) }
}
// index of the last c before position n, or -1
pub open spec fn rfind_to(s: Seq<u8>, c: u8, n: int) -> int decreases n {
    if n <= 0 || n > s.len() { -1 } else if s[n - 1] == c { n - 1 } else { rfind_to(s, c, n - 1) }
}
pub proof fn lemma_find_from(s: Seq<u8>, c: u8, i: int)
    ensures find_from(s, c, i) == -1 || (i <= find_from(s, c, i) < s.len() && s[find_from(s, c, i)] == c),
    decreases s.len() - i
{ if 0 <= i < s.len() && s[i] != c { lemma_find_from(s, c, i + 1); } }
pub proof fn lemma_rfind_to(s: Seq<u8>, c: u8, n: int)
    ensures rfind_to(s, c, n) == -1 || (0 <= rfind_to(s, c, n) < n <= s.len() && s[rfind_to(s, c, n)] == c),
    decreases n
{ if 0 < n <= s.len() && s[n - 1] != c { lemma_rfind_to(s, c, n - 1); } }
pub proof fn lemma_finds()
    ensures forall|s: Seq<u8>, c: u8, i: int| #[trigger] find_from(s, c, i) == -1 || (i <= find_from(s, c, i) < s.len() && s[find_from(s, c, i)] == c),
        forall|s: Seq<u8>, c: u8, n: int| #[trigger] rfind_to(s, c, n) == -1 || (0 <= rfind_to(s, c, n) < n <= s.len() && s[rfind_to(s, c, n)] == c),
{
    assert forall|s: Seq<u8>, c: u8, i: int| #[trigger] find_from(s, c, i) == -1 || (i <= find_from(s, c, i) < s.len() && s[find_from(s, c, i)] == c) by { lemma_find_from(s, c, i); }
    assert forall|s: Seq<u8>, c: u8, n: int| #[trigger] rfind_to(s, c, n) == -1 || (0 <= rfind_to(s, c, n) < n <= s.len() && s[rfind_to(s, c, n)] == c) by { lemma_rfind_to(s, c, n); }
}
pub open spec fn as_pos(i: int) -> int { if i < 0 { npos() } else { i } }
pub open spec fn str_find(s: Seq<u8>, c: u8, from: int) -> int { if from > s.len() { npos() } else { as_pos(find_from(s, c, from)) } }
pub open spec fn str_rfind(s: Seq<u8>, c: u8) -> int { as_pos(rfind_to(s, c, s.len() as int)) }
// substr(pos, n) for pos <= size()
pub open spec fn str_substr(s: Seq<u8>, p: int, n: int) -> Seq<u8> {
    s.subrange(p, if n > s.len() - p { s.len() as int } else { p + n })
}
// resize keeps the common prefix and pads with zero bytes (resp. pad)
pub open spec fn str_resize(s: Seq<u8>, n: int) -> Seq<u8> {
    if n <= s.len() { s.subrange(0, n) } else { s + Seq::new((n - s.len()) as nat, |i: int| 0u8) }
}
// absl::StrSplit(s, c): pieces between occurrences of c, at least one piece
pub open spec fn split_at(s: Seq<u8>, c: u8, i: int) -> Seq<Seq<u8>> decreases s.len() - i {
    if i < 0 || i > s.len() { Seq::empty() } else {
        let j = find_from(s, c, i);
        if j < i || j >= s.len() { seq![s.subrange(i, s.len() as int)] } else { seq![s.subrange(i, j)] + split_at(s, c, j + 1) }
    }
}
pub open spec fn split(s: Seq<u8>, c: u8) -> Seq<Seq<u8>> { split_at(s, c, 0) }
// absl::SkipEmpty()
pub open spec fn not_empty(a: Seq<Seq<u8>>) -> Seq<Seq<u8>> decreases a.len() {
    if a.len() == 0 { a } else if a[0].len() == 0 { not_empty(a.skip(1)) } else { seq![a[0]] + not_empty(a.skip(1)) }
}
// absl::SkipWhitespace()
pub open spec fn blank(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] == 32 || 9 <= #[trigger] s[i] <= 13 }
pub open spec fn not_blank(a: Seq<Seq<u8>>) -> Seq<Seq<u8>> decreases a.len() {
    if a.len() == 0 { a } else if blank(a[0]) { not_blank(a.skip(1)) } else { seq![a[0]] + not_blank(a.skip(1)) }
}
pub uninterp spec fn to_dec(x: int) -> Seq<u8>;
pub open spec fn vec_resize<T>(s: Seq<T>, n: int, d: T) -> Seq<T> {
    if n <= s.len() { s.subrange(0, n) } else { s + Seq::new((n - s.len()) as nat, |i: int| d) }
}
pub struct Iter<T> { pub s: Seq<T>, pub i: int }
pub open spec fn mk_iter<T>(s: Seq<T>, i: int) -> Iter<T> { Iter { s: s, i: i } }
// lexicographic order of byte strings is not interpreted
pub uninterp spec fn str_lt(a: Seq<u8>, b: Seq<u8>) -> bool;

// ---- absl::Status --------------------------------------------------------------------------------------------------
pub struct Status { pub code: int, pub msg: Seq<u8> }
pub open spec fn status_ok() -> Status { Status { code: 0, msg: Seq::empty() } }
pub open spec fn status_new(code: int, msg: Seq<u8>) -> Status { if code == 0 { status_ok() } else { Status { code: code, msg: msg } } }
pub enum StatusOr<T> { Ok(T), Err(Status) }

// ---- floating point is not interpreted ------------------------------------------------------------------------------
pub struct F64 { pub bits: u64 }
pub struct F32 { pub bits: u32 }
pub uninterp spec fn f64_op(k: int, a: F64, b: F64) -> F64;
pub uninterp spec fn f64_eq(a: F64, b: F64) -> bool;
pub uninterp spec fn f64_lt(a: F64, b: F64) -> bool;
pub uninterp spec fn f64_le(a: F64, b: F64) -> bool;
pub uninterp spec fn f64_abs(a: F64) -> F64;
pub uninterp spec fn f32_op(k: int, a: F32, b: F32) -> F32;
pub uninterp spec fn f32_eq(a: F32, b: F32) -> bool;
pub uninterp spec fn f32_lt(a: F32, b: F32) -> bool;
pub uninterp spec fn f32_le(a: F32, b: F32) -> bool;
pub uninterp spec fn f32_abs(a: F32) -> F32;
pub uninterp spec fn to_f64(a: F32) -> F64;
pub uninterp spec fn to_f32(a: F64) -> F32;
pub uninterp spec fn int_to_f64(a: int) -> F64;
pub uninterp spec fn int_to_f32(a: int) -> F32;

// ---- bit-level lemmas ----------------------------------------------------------------------------------------------
pub proof fn lemma_bit_or_low()
    ensures
        forall|a: int, b: int| 0 <= a < 0x1_0000_0000_0000_0000 && a % 16 == 0 && 0 <= b < 16 ==> #[trigger] bit_or(a, b) == a + b,
        forall|a: int, b: int| 0 <= a < 0x1_0000_0000_0000_0000 && a % 256 == 0 && 0 <= b < 256 ==> #[trigger] bit_or(a, b) == a + b,
        forall|a: int, b: int| 0 <= a < 0x1_0000_0000_0000_0000 && a % 0x1_0000 == 0 && 0 <= b < 0x1_0000 ==> #[trigger] bit_or(a, b) == a + b,
        forall|a: int, b: int| 0 <= a < 0x1_0000_0000_0000_0000 && a % 0x100_0000 == 0 && 0 <= b < 0x100_0000 ==> #[trigger] bit_or(a, b) == a + b,
        forall|a: int, b: int| 0 <= a < 0x1_0000_0000_0000_0000 && 0 <= b < 0x1_0000_0000_0000_0000 ==> #[trigger] bit_or(a, b) == bit_or(b, a),
{
    assert forall|a: int, b: int| 0 <= a < 0x1_0000_0000_0000_0000 && 0 <= b < 0x1_0000_0000_0000_0000 implies #[trigger] bit_or(a, b) == bit_or(b, a) by {
        let x = a as u64; let y = b as u64; assert((x | y) == (y | x)) by (bit_vector);
    }
    assert forall|a: int, b: int| 0 <= a < 0x1_0000_0000_0000_0000 && a % 16 == 0 && 0 <= b < 16 implies #[trigger] bit_or(a, b) == a + b by {
        let x = a as u64; let y = b as u64; assert(x % 16 == 0); assert((x % 16 == 0 && y < 16) ==> (x | y) == add(x, y) && x <= 0xffff_ffff_ffff_fff0) by (bit_vector);
    }
    assert forall|a: int, b: int| 0 <= a < 0x1_0000_0000_0000_0000 && a % 256 == 0 && 0 <= b < 256 implies #[trigger] bit_or(a, b) == a + b by {
        let x = a as u64; let y = b as u64; assert(x % 256 == 0); assert((x % 256 == 0 && y < 256) ==> (x | y) == add(x, y) && x <= 0xffff_ffff_ffff_ff00) by (bit_vector);
    }
    assert forall|a: int, b: int| 0 <= a < 0x1_0000_0000_0000_0000 && a % 0x1_0000 == 0 && 0 <= b < 0x1_0000 implies #[trigger] bit_or(a, b) == a + b by {
        let x = a as u64; let y = b as u64; assert(x % 0x1_0000 == 0); assert((x % 0x1_0000 == 0 && y < 0x1_0000) ==> (x | y) == add(x, y) && x <= 0xffff_ffff_ffff_0000) by (bit_vector);
    }
    assert forall|a: int, b: int| 0 <= a < 0x1_0000_0000_0000_0000 && a % 0x100_0000 == 0 && 0 <= b < 0x100_0000 implies #[trigger] bit_or(a, b) == a + b by {
        let x = a as u64; let y = b as u64; assert(x % 0x100_0000 == 0); assert((x % 0x100_0000 == 0 && y < 0x100_0000) ==> (x | y) == add(x, y) && x <= 0xffff_ffff_ff00_0000) by (bit_vector);
    }
}

pub proof fn lemma_sub_all<A>()
    ensures forall|s: Seq<A>| #[trigger] s.subrange(0, s.len() as int) == s,
{ assert forall|s: Seq<A>| #[trigger] s.subrange(0, s.len() as int) == s by { assert(s.subrange(0, s.len() as int) =~= s); } }
// ---- sequence lemmas -----------------------------------------------------------------------------------------------
pub proof fn lemma_seq_update<A>()
    ensures
        forall|s: Seq<A>, a: A, b: A, i: int| i == s.len() ==> #[trigger] s.push(a).update(i, b) == s.push(b),
        forall|s: Seq<A>, a: A, b: A, i: int| 0 <= i < s.len() ==> #[trigger] s.update(i, a).update(i, b) == s.update(i, b),
        forall|s: Seq<A>, i: int| 0 <= i < s.len() ==> #[trigger] s.update(i, s[i]) == s,
{
    assert forall|s: Seq<A>, a: A, b: A, i: int| i == s.len() implies #[trigger] s.push(a).update(i, b) == s.push(b) by { assert(s.push(a).update(i, b) =~= s.push(b)); }
    assert forall|s: Seq<A>, a: A, b: A, i: int| 0 <= i < s.len() implies #[trigger] s.update(i, a).update(i, b) == s.update(i, b) by { assert(s.update(i, a).update(i, b) =~= s.update(i, b)); }
    assert forall|s: Seq<A>, i: int| 0 <= i < s.len() implies #[trigger] s.update(i, s[i]) == s by { assert(s.update(i, s[i]) =~= s); }
}
