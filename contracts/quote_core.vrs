#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
global size_of usize == 8;
@include fmt_core.vrs
@include lang_str.vrs

// ---- what writing through a Formatter does (discharged in unit fmt: write_str) ----
impl<'a> Formatter<'a> {
    /// discharged in unit fmt (core_write_str)
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: FResult)
        requires old(self).wf(), ensures wrote(*old(self), *final(self), r, s@)
    { unimplemented!() }
    /// core: Write::write_char passes the character to write_str
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: FResult)
        requires old(self).wf(), ensures wrote(*old(self), *final(self), r, seq![c])
    { unimplemented!() }
    /// core: Write::write_fmt passes the pieces of the text to write_str, in order
    #[verifier::external_body]
    pub fn write_fmt(&mut self, a: FmtArgs) -> (r: FResult)
        requires old(self).wf(), ensures wrote(*old(self), *final(self), r, a.t@)
    { unimplemented!() }
}
/// the text a format_args! stands for
pub struct FmtArgs { pub t: Ghost<Seq<char>> }
pub fn fmt_lit(s: &str) -> (r: FmtArgs) ensures r.t@ == s@ { FmtArgs { t: Ghost(s@) } }
pub fn fmt_cat(a: FmtArgs, b: FmtArgs) -> (r: FmtArgs) ensures r.t@ == a.t@ + b.t@ { FmtArgs { t: Ghost(a.t@ + b.t@) } }
pub trait HexArg: Sized { spec fn hv(self) -> nat; }
impl HexArg for u8 { open spec fn hv(self) -> nat { self as nat } }
impl HexArg for u16 { open spec fn hv(self) -> nat { self as nat } }
impl HexArg for u32 { open spec fn hv(self) -> nat { self as nat } }
impl HexArg for u64 { open spec fn hv(self) -> nat { self as nat } }
impl HexArg for usize { open spec fn hv(self) -> nat { self as nat } }
/// u32::from(x)
pub trait IntoU32: Sized { spec fn u(self) -> u32; fn into_u32(self) -> (r: u32) ensures r == self.u(); }
impl IntoU32 for char { open spec fn u(self) -> u32 { self as u32 } fn into_u32(self) -> (r: u32) { self as u32 } }
impl IntoU32 for u16 { open spec fn u(self) -> u32 { self as u32 } fn into_u32(self) -> (r: u32) { self as u32 } }
impl IntoU32 for u8 { open spec fn u(self) -> u32 { self as u32 } fn into_u32(self) -> (r: u32) { self as u32 } }
impl IntoU32 for u32 { open spec fn u(self) -> u32 { self } fn into_u32(self) -> (r: u32) { self } }
/// core: {:0Nx}
#[verifier::external_body]
pub fn fmt_hex<T: HexArg>(w: usize, v: T) -> (r: FmtArgs) ensures r.t@ == num(16, w as nat, v.hv()) { unimplemented!() }
/// core: {:0No}
#[verifier::external_body]
pub fn fmt_oct<T: HexArg>(w: usize, v: T) -> (r: FmtArgs) ensures r.t@ == num(8, w as nat, v.hv()) { unimplemented!() }
pub trait DisplayArg { spec fn dv(&self) -> Seq<char>; }
impl DisplayArg for &str { open spec fn dv(&self) -> Seq<char> { (*self)@ } }
impl DisplayArg for char { open spec fn dv(&self) -> Seq<char> { seq![*self] } }
impl DisplayArg for String { open spec fn dv(&self) -> Seq<char> { self@ } }
/// core: {} of a string is the string, of a character the character
#[verifier::external_body]
pub fn fmt_display<T: DisplayArg>(v: &T) -> (r: FmtArgs) ensures r.t@ == v.dv() { unimplemented!() }

// ---- numbers as digits ----
pub open spec fn dig(v: nat) -> char {
    if v == 0 { '0' } else if v == 1 { '1' } else if v == 2 { '2' } else if v == 3 { '3' } else if v == 4 { '4' }
    else if v == 5 { '5' } else if v == 6 { '6' } else if v == 7 { '7' } else if v == 8 { '8' } else if v == 9 { '9' }
    else if v == 10 { 'a' } else if v == 11 { 'b' } else if v == 12 { 'c' } else if v == 13 { 'd' } else if v == 14 { 'e' } else { 'f' }
}
pub open spec fn val(c: char) -> nat {
    if '0' <= c <= '9' { (c as nat - '0' as nat) as nat } else if 'a' <= c <= 'f' { (c as nat - 'a' as nat + 10) as nat }
    else if 'A' <= c <= 'F' { (c as nat - 'A' as nat + 10) as nat } else { 99 }
}
/// exactly n digits
pub open spec fn digs(b: nat, n: nat, v: nat) -> Seq<char> decreases n {
    if n == 0 { seq![] } else { digs(b, (n - 1) as nat, v / b).push(dig(v % b)) }
}
pub open spec fn ndig(b: nat, v: nat) -> nat decreases v via ndig_dec {
    if v < b || b < 2 { 1 } else { 1 + ndig(b, v / b) } 
}

#[via_fn]
proof fn ndig_dec(b: nat, v: nat) {
    if !(v < b || b < 2) { assert(v / b < v) by (nonlinear_arith) requires v >= b, b >= 2; }
}
/// at least w digits, no other leading zeros
pub open spec fn num(b: nat, w: nat, v: nat) -> Seq<char> { digs(b, if ndig(b, v) > w { ndig(b, v) } else { w }, v) }
/// the value of digits, None if something else is among them
pub open spec fn unnum(b: nat, s: Seq<char>) -> Option<nat> decreases s.len() {
    if s.len() == 0 { Some(0) } else {
        match unnum(b, s.drop_last()) { Some(h) if val(s.last()) < b => Some(h * b + val(s.last())), _ => None }
    }
}
pub open spec fn pow(b: nat, n: nat) -> nat decreases n { if n == 0 { 1 } else { b * pow(b, (n - 1) as nat) } }
pub proof fn lemma_digs(b: nat, n: nat, v: nat)
    requires 2 <= b <= 16, v < pow(b, n),
    ensures unnum(b, digs(b, n, v)) == Some(v), digs(b, n, v).len() == n,
        forall|i: int| 0 <= i < n ==> val(#[trigger] digs(b, n, v)[i]) < b,
    decreases n
{
    if n > 0 {
        let p = pow(b, (n - 1) as nat);
        assert(v / b < p && v % b < b && v == (v / b) * b + v % b) by (nonlinear_arith) requires v < b * p, b >= 2;
        lemma_digs(b, (n - 1) as nat, v / b);
        let d = digs(b, (n - 1) as nat, v / b);
        assert(d.push(dig(v % b)).drop_last() =~= d);
        assert(val(dig(v % b)) == v % b);
    }
}
pub proof fn lemma_ndig(b: nat, v: nat, n: nat)
    requires 2 <= b <= 16, n >= 1, v < pow(b, n)
    ensures 1 <= ndig(b, v) <= n, v < pow(b, ndig(b, v)),
    decreases n
{
    assert(pow(b, 0) == 1); assert(pow(b, 1) == b * pow(b, 0)); assert(b * 1 == b) by (nonlinear_arith);
    if v >= b {
        let p = pow(b, (n - 1) as nat);
        assert(n != 1);
        assert(v / b < p) by (nonlinear_arith) requires v < b * p, b >= 2;
        assert(v / b < v) by (nonlinear_arith) requires v >= b, b >= 2;
        lemma_ndig(b, v / b, (n - 1) as nat);
        let q = pow(b, ndig(b, v / b));
        assert(v < b * q) by (nonlinear_arith) requires v / b < q, b >= 2;
    }
}
/// v fits w digits: num writes exactly w
pub proof fn lemma_num(b: nat, w: nat, v: nat)
    requires 2 <= b <= 16, w >= 1, v < pow(b, w),
    ensures num(b, w, v) == digs(b, w, v), num(b, w, v).len() == w, unnum(b, num(b, w, v)) == Some(v),
        forall|i: int| 0 <= i < w ==> val(#[trigger] num(b, w, v)[i]) < b,
{ lemma_ndig(b, v, w); lemma_digs(b, w, v); }
pub proof fn lemma_pows()
    ensures pow(16, 2) == 0x100, pow(16, 4) == 0x1_0000, pow(16, 6) == 0x100_0000, pow(16, 8) == 0x1_0000_0000, pow(8, 3) == 0o1000,
{ assert(pow(16, 2) == 0x100 && pow(16, 4) == 0x1_0000 && pow(16, 6) == 0x100_0000 && pow(16, 8) == 0x1_0000_0000 && pow(8, 3) == 0o1000) by (compute); }

// ---- std: characters ----
pub mod charm {
use vstd::prelude::*;
/// core: general category Cc, which Unicode never changes
pub assume_specification [char::is_control] (c: char) -> (r: bool)
    ensures r == is_ctl(c);
pub open spec fn is_ctl(c: char) -> bool { c < ' ' || ('\u{7f}' <= c && c <= '\u{9f}') }
pub assume_specification [char::is_ascii_control] (c: &char) -> (r: bool)
    ensures r == (*c < ' ' || *c == '\u{7f}');
pub assume_specification [char::is_ascii] (c: &char) -> (r: bool)
    ensures r == (*c < '\u{80}');
pub assume_specification [char::is_ascii_hexdigit] (c: &char) -> (r: bool)
    ensures r == is_hex(*c);
pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool)
    ensures r == is_alpha(*c);
pub open spec fn is_alpha(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub assume_specification [char::is_ascii_alphanumeric] (c: &char) -> (r: bool)
    ensures r == (is_alpha(*c) || ('0' <= *c && *c <= '9'));
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool)
    ensures r == ('0' <= *c && *c <= '9');
pub open spec fn is_hex(c: char) -> bool { ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
/// core: the characters of a string, with one character of lookahead
#[verifier::external_body]
pub struct PeekChars<'a> { it: core::iter::Peekable<core::str::Chars<'a>> }
impl<'a> PeekChars<'a> {
    pub uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1)
    { self.it.next() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&char>)
        ensures final(self).rest() == old(self).rest(),
            old(self).rest().len() == 0 ==> r is None,
            old(self).rest().len() > 0 ==> r is Some && *r->0 == old(self).rest()[0]
    { self.it.peek() }
}
#[verifier::external_body]
pub fn xt_peekable<'a>(it: core::str::Chars<'a>) -> (r: PeekChars<'a>)
    ensures r.rest() == vstd::std_specs::iter::IteratorSpec::remaining(&it)
{ unimplemented!() }
/// core: a character as a string of its own
#[verifier::external_body]
pub fn xt_char_str(c: char) -> (r: &'static str) ensures r@ == seq![c] { unimplemented!() }
/// core: the UTF-16 code units of a character
#[verifier::external_body]
pub fn xt_char_units(c: char) -> (r: Vec<u16>) ensures r@ == super::utf16(c) { unimplemented!() }
}
use charm::*;
pub open spec fn utf16(c: char) -> Seq<u16> {
    if (c as u32) < 0x10000 { seq![c as u16] }
    else { seq![(0xd800 + (c as u32 - 0x10000) / 0x400) as u16, (0xdc00 + (c as u32 - 0x10000) % 0x400) as u16] }
}

// ---- escaping: what is written for the first k characters ----
/// e(c, n): what is written for c when n follows in the same text
pub type Enc = spec_fn(char, Option<char>) -> Seq<char>;
pub open spec fn nxt(s: Seq<char>, i: int) -> Option<char> { if i + 1 < s.len() { Some(s[i + 1]) } else { None } }
pub open spec fn enc(e: Enc, s: Seq<char>, k: nat) -> Seq<char> decreases k {
    if k == 0 { seq![] } else { enc(e, s, (k - 1) as nat) + e(s[k - 1], nxt(s, k - 1)) }
}
// ---- reading a string literal back, token by token ----
/// the units the first token of a literal's text stands for, and its length
pub type Tok = spec_fn(Seq<char>) -> Option<(Seq<nat>, nat)>;
/// reads tokens as far as they go: what they stand for, and what is left
pub open spec fn dec(t: Tok, s: Seq<char>) -> (Seq<nat>, Seq<char>) decreases s.len() {
    if s.len() == 0 { (seq![], s) } else {
        match t(s) {
            Some((u, n)) if 0 < n && n <= s.len() => prepend(u, dec(t, s.skip(n as int))),
            _ => (seq![], s),
        }
    }
}
pub open spec fn prepend(u: Seq<nat>, o: (Seq<nat>, Seq<char>)) -> (Seq<nat>, Seq<char>) { (u + o.0, o.1) }
pub type Units = spec_fn(char) -> Seq<nat>;
pub open spec fn units(u: Units, s: Seq<char>, k: nat) -> Seq<nat> decreases k {
    if k == 0 { seq![] } else { units(u, s, (k - 1) as nat) + u(s[k - 1]) }
}
/// may follow what was written for a character that is followed by n
pub type Compat = spec_fn(Option<char>, Seq<char>) -> bool;
/// e and t fit together, one character at a time, whatever follows
pub open spec fn fits(e: Enc, t: Tok, u: Units, m: Compat) -> bool {
    &&& forall|x: Seq<char>| #[trigger] m(None, x)
    &&& forall|c: char, n: Option<char>, x: Seq<char>| #[trigger] one(e, t, u, m, c, n, x)
}
pub open spec fn one(e: Enc, t: Tok, u: Units, m: Compat, c: char, n: Option<char>, x: Seq<char>) -> bool {
    m(n, x) ==> dec(t, e(c, n) + x) == prepend(u(c), dec(t, x)) && m(Some(c), e(c, n) + x)
}
/// one token is enough for w
pub proof fn lemma_tok(t: Tok, w: Seq<char>, x: Seq<char>, u: Seq<nat>)
    requires w.len() > 0, t(w + x) == Some((u, w.len())),
    ensures dec(t, w + x) == prepend(u, dec(t, x)),
{ assert((w + x).skip(w.len() as int) =~= x); }
/// text escaped by e reads back as itself, whatever stands behind it in the literal
pub proof fn theorem_round(e: Enc, t: Tok, u: Units, m: Compat, s: Seq<char>, k: nat, x: Seq<char>)
    requires fits(e, t, u, m), k <= s.len(), k < s.len() ==> m(Some(s[k as int]), x),
    ensures dec(t, enc(e, s, k) + x) == prepend(units(u, s, k), dec(t, x)),
    decreases k
{
    if k == 0 {
        assert(enc(e, s, k) + x =~= x);
        let r = dec(t, x); assert(seq![] + r.0 =~= r.0);
    } else {
        let c = s[k - 1]; let n = nxt(s, k - 1);
        let w = e(c, n);
        if n is None { assert(m(None, x)); }
        assert(one(e, t, u, m, c, n, x));
        assert(enc(e, s, k) + x =~= enc(e, s, (k - 1) as nat) + (w + x));
        theorem_round(e, t, u, m, s, (k - 1) as nat, w + x);
        let r = dec(t, x).0; assert(units(u, s, (k - 1) as nat) + (u(c) + r) =~= units(u, s, k) + r);
    }
}
/// the literal ends where its end was written: x is whatever t does not read on from (a delimiter)
pub proof fn theorem_ends(e: Enc, t: Tok, u: Units, m: Compat, s: Seq<char>, x: Seq<char>)
    requires fits(e, t, u, m), x.len() == 0 || t(x) is None,
    ensures dec(t, enc(e, s, s.len()) + x) == (units(u, s, s.len()), x)
{ theorem_round(e, t, u, m, s, s.len(), x); assert(units(u, s, s.len()) + seq![] =~= units(u, s, s.len())); }
pub open spec fn always() -> Compat { |n: Option<char>, x: Seq<char>| true }
pub open spec fn code() -> Units { |c: char| seq![c as nat] }
pub proof fn lemma_wrote(a: Formatter<'_>, b: Formatter<'_>, c: Formatter<'_>, r: FResult, s: Seq<char>, t: Seq<char>)
    requires wrote(a, b, Ok(()), s), wrote(b, c, r, t), ensures wrote(a, c, r, s + t)
{ lemma_emit(a.cfg(), a.fs(), s, t); }
pub proof fn lemma_emit3(c: Cfg, f: FS, a: Seq<char>, b: Seq<char>, d: Seq<char>)
    ensures emit(c, emit(c, emit(c, f, a), b), d) == emit(c, f, a + b + d)
{ lemma_emit(c, f, a, b); lemma_emit(c, f, a + b, d); }
/// the first n characters after the first k
pub open spec fn at(s: Seq<char>, k: int, n: int) -> Seq<char> { if 0 <= k && k + n <= s.len() { s.subrange(k, k + n) } else { seq![] } }
/// an escape with a fixed number of digits
pub open spec fn fixed(b: nat, s: Seq<char>, k: int, n: int) -> Option<(Seq<nat>, nat)> {
    if k + n <= s.len() { match unnum(b, at(s, k, n)) { Some(v) => Some((seq![v], (k + n) as nat)), None => None } } else { None }
}
pub open spec fn lit(v: nat, n: nat) -> Option<(Seq<nat>, nat)> { Some((seq![v], n)) }
/// p (of k characters), v in n digits, then anything: the escape reads v
pub proof fn lemma_fixed(b: nat, p: Seq<char>, n: nat, v: nat, x: Seq<char>)
    requires 2 <= b <= 16, n >= 1, v < pow(b, n),
    ensures fixed(b, p + num(b, n, v) + x, p.len() as int, n as int) == lit(v, p.len() + n), num(b, n, v).len() == n,
        forall|i: int| 0 <= i < p.len() ==> #[trigger] (p + num(b, n, v) + x)[i] == p[i],
{
    lemma_num(b, n, v);
    assert(at(p + num(b, n, v) + x, p.len() as int, n as int) =~= num(b, n, v));
}
