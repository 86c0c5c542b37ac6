@include quote_core.vrs

// ---- C#, Go, Python ----
pub open spec fn e_cfam() -> Enc { |c: char, n: Option<char>|
    if c == '\u{7}' { seq!['\\', 'a'] } else if c == '\u{8}' { seq!['\\', 'b'] } else if c == '\u{c}' { seq!['\\', 'f'] }
    else if c == '\n' { seq!['\\', 'n'] } else if c == '\r' { seq!['\\', 'r'] } else if c == '\t' { seq!['\\', 't'] }
    else if c == '\u{b}' { seq!['\\', 'v'] } else if c == '"' { seq!['\\', '"'] } else if c == '\\' { seq!['\\', '\\'] }
    else if ' ' <= c && c < '\u{7f}' { seq![c] }
    else if c < '\u{80}' && n is Some && !is_hex(n->0) { seq!['\\', 'x'] + num(16, 2, c as nat) }
    else if (c as u32) < 0x10000 { seq!['\\', 'u'] + num(16, 4, c as nat) }
    else { seq!['\\', 'U'] + num(16, 8, c as nat) }
}
@fn lang|||c_family_write_quoted -> r reveal
    requires old(out).wf(),
    ensures wrote(*old(out), *final(out), r, enc(e_cfam(), input@, input@.len())),
@start
    let ghost mut k: nat = 0;
    proof { lemma_ws(out.write.st(), seq![], seq![]); }
@loop 0 while
    invariant k <= input@.len(), it.rest() == input@.skip(k as int), wrote(*old(out), *out, Ok(()), enc(e_cfam(), input@, k)), old(out).wf(),
    ensures k == input@.len(),
    decreases it.rest().len(),
@lstart 0
    let ghost o1 = *out;
@lend 0
    proof {
        k = k + 1;
        lemma_wrote(*old(out), o1, *out, Ok(()), enc(e_cfam(), input@, (k - 1) as nat), e_cfam()(input@[k - 1], nxt(input@, k - 1)));
    }
@arm
    let _t = &mut *out;
@done

// ---- C ----
pub open spec fn e_c() -> Enc { |c: char, n: Option<char>|
    if c_ascii(c) { seq!['\\'] + num(8, 3, c as nat) }
    else if c_c1(c) { seq!['\\', '3', '0', '2', '\\'] + num(8, 3, c as nat) }
    else { e_cfam()(c, None) }
}
// ---- how the languages read string literals (each decoder names the grammar it follows) ----
/// one-character escapes shared by C, C#, Go and Python
pub open spec fn simple(c: char) -> Option<nat> {
    if c == 'a' { Some(7) } else if c == 'b' { Some(8) } else if c == 'f' { Some(12) } else if c == 'n' { Some(10) }
    else if c == 'r' { Some(13) } else if c == 't' { Some(9) } else if c == 'v' { Some(11) } else if c == '"' { Some('"' as nat) }
    else if c == '\\' { Some('\\' as nat) } else { None }
}
/// Go spec, "String literals" (interpreted): \x has exactly two digits, a newline or quote ends the literal
pub open spec fn t_go() -> Tok { |s: Seq<char>|
    if s[0] == '"' || s[0] == '\n' { None }
    else if s[0] != '\\' { lit(s[0] as nat, 1) }
    else if s.len() < 2 { None }
    else if simple(s[1]) is Some { lit(simple(s[1])->0, 2) }
    else if s[1] == 'x' { fixed(16, s, 2, 2) } else if s[1] == 'u' { fixed(16, s, 2, 4) } else if s[1] == 'U' { fixed(16, s, 2, 8) } else { None }
}
/// Python reference, "String and Bytes literals": as Go for these escapes; a carriage return ends a line, too
pub open spec fn t_py() -> Tok { |s: Seq<char>|
    if s[0] == '"' || s[0] == '\n' || s[0] == '\r' { None } else { t_go()(s) }
}
/// C# specification 6.4.5.6: \x takes one to four digits, as many as there are; new line
/// characters are CR, LF, U+0085, U+2028 and U+2029
pub open spec fn t_cs() -> Tok { |s: Seq<char>|
    if s[0] == '"' || s[0] == '\n' || s[0] == '\r' || s[0] == '\u{85}' || s[0] == '\u{2028}' || s[0] == '\u{2029}' { None }
    else if s[0] != '\\' { lit(s[0] as nat, 1) }
    else if s.len() < 2 { None }
    else if simple(s[1]) is Some { lit(simple(s[1])->0, 2) }
    else if s[1] == 'x' { let n = hexes(s, 2, 4); if n == 0 { None } else { fixed(16, s, 2, n as int) } }
    else if s[1] == 'u' { fixed(16, s, 2, 4) } else if s[1] == 'U' { fixed(16, s, 2, 8) } else { None }
}
/// how many hex digits stand from k on, at most n
pub open spec fn hexes(s: Seq<char>, k: int, n: nat) -> nat decreases n {
    if n > 0 && 0 <= k < s.len() && is_hex(s[k]) { 1 + hexes(s, k + 1, (n - 1) as nat) } else { 0 }
}
/// C17 6.4.4.4 and 6.4.5, with UTF-8 as execution character set (and trigraphs off): \ooo is a byte of one to
/// three digits, \x has no limit, \u and \U name no character below A0 and no surrogate, and stand for its UTF-8 bytes
pub open spec fn t_c() -> Tok { |s: Seq<char>|
    if s[0] == '"' || s[0] == '\n' || s[0] == '\r' { None }
    else if s[0] != '\\' { Some((utf8(s[0] as nat), 1)) }
    else if s.len() < 2 { None }
    else if simple(s[1]) is Some { lit(simple(s[1])->0, 2) }
    else if val(s[1]) < 8 {
        let n = octs(s, 1, 3);
        match fixed(8, s, 1, n as int) { Some((v, l)) if v[0] < 256 => Some((v, l)), _ => None }
    }
    else if s[1] == 'u' { ucn(fixed(16, s, 2, 4)) } else if s[1] == 'U' { ucn(fixed(16, s, 2, 8)) } else { None }
}
pub open spec fn octs(s: Seq<char>, k: int, n: nat) -> nat decreases n {
    if n > 0 && 0 <= k < s.len() && val(s[k]) < 8 { 1 + octs(s, k + 1, (n - 1) as nat) } else { 0 }
}
pub open spec fn ucn(o: Option<(Seq<nat>, nat)>) -> Option<(Seq<nat>, nat)> {
    match o { Some((v, l)) if 0xa0 <= v[0] <= 0x10ffff && !(0xd800 <= v[0] <= 0xdfff) => Some((utf8(v[0]), l)), _ => None }
}
pub open spec fn utf8(v: nat) -> Seq<nat> {
    if v < 0x80 { seq![v] } else if v < 0x800 { seq![0xc0 + v / 0x40, 0x80 + v % 0x40] }
    else if v < 0x10000 { seq![0xe0 + v / 0x1000, 0x80 + v / 0x40 % 0x40, 0x80 + v % 0x40] }
    else { seq![0xf0 + v / 0x40000, 0x80 + v / 0x1000 % 0x40, 0x80 + v / 0x40 % 0x40, 0x80 + v % 0x40] }
}
pub open spec fn bytes() -> Units { |c: char| utf8(c as nat) }
pub proof fn lemma_c_oct(v: nat, x: Seq<char>)
    requires v < 256,
    ensures dec(t_c(), seq!['\\'] + num(8, 3, v) + x) == prepend(seq![v], dec(t_c(), x)),
{
    lemma_pows(); lemma_num(8, 3, v);
    let w = seq!['\\'] + num(8, 3, v); let s = w + x;
    lemma_fixed(8, seq!['\\'], 3, v, x);
    reveal_with_fuel(octs, 4);
    assert(s[0] == '\\'); assert(s[1] == num(8, 3, v)[0] && s[2] == num(8, 3, v)[1] && s[3] == num(8, 3, v)[2]);
    assert(octs(s, 1, 3) == 3);
    lemma_tok(t_c(), w, x, seq![v]);
}
pub open spec fn c_ascii(c: char) -> bool { c < ' ' && !('\u{7}' <= c && c <= '\u{d}') || c == '\u{7f}' }
pub open spec fn c_c1(c: char) -> bool { '\u{80}' <= c && c <= '\u{9f}' }
pub proof fn lemma_c_one_a(c: char, n: Option<char>, x: Seq<char>)
    requires c_ascii(c), ensures one(e_c(), t_c(), bytes(), always(), c, n, x),
{ lemma_c_oct(c as nat, x); assert(bytes()(c) =~= seq![c as nat]); }
pub proof fn lemma_c_one_b(c: char, n: Option<char>, x: Seq<char>)
    requires c_c1(c), ensures one(e_c(), t_c(), bytes(), always(), c, n, x),
{
    let v = c as nat; let b = seq!['\\'] + num(8, 3, v);
    lemma_c_oct(v, x); lemma_c_oct(0xc2, b + x);
    assert(num(8, 3, 0xc2) =~= seq!['3', '0', '2']) by { reveal_with_fuel(digs, 4); reveal_with_fuel(ndig, 4); }
    let s = e_c()(c, n) + x;
    assert(s =~= seq!['\\'] + num(8, 3, 0xc2) + (b + x));
    assert(bytes()(c) =~= seq![0xc2nat] + seq![v]);
    let r = dec(t_c(), x).0; assert(seq![0xc2nat] + (seq![v] + r) =~= seq![0xc2nat] + seq![v] + r);
}
pub proof fn lemma_c_one_d(c: char, n: Option<char>, x: Seq<char>)
    requires !c_ascii(c), !c_c1(c), ensures one(e_c(), t_c(), bytes(), always(), c, n, x),
{
    hide(dec);
    lemma_pows();
    let v = c as nat; let w = e_c()(c, n); let s = w + x;
    assert(w == e_cfam()(c, None));
    assert(w.len() > 0 ==> s[0] == w[0]);
    assert(w.len() > 1 ==> s[1] == w[1]);
    if (c as u32) < 0x10000 { lemma_fixed(16, seq!['\\', 'u'], 4, v, x); }
    lemma_fixed(16, seq!['\\', 'U'], 8, v, x);
    lemma_tok(t_c(), w, x, utf8(v));
}
pub proof fn lemma_c_one(c: char, n: Option<char>, x: Seq<char>)
    ensures one(e_c(), t_c(), bytes(), always(), c, n, x),
{
    hide(one);
    if c_ascii(c) { lemma_c_one_a(c, n, x); } else if c_c1(c) { lemma_c_one_b(c, n, x); } else { lemma_c_one_d(c, n, x); }
}
/// text quoted for C reads back as its UTF-8 bytes, and ends where it was ended
pub proof fn theorem_c(s: Seq<char>, x: Seq<char>)
    ensures dec(t_c(), enc(e_c(), s, s.len()) + x) == prepend(units(bytes(), s, s.len()), dec(t_c(), x)),
        x.len() == 0 || t_c()(x) is None ==> dec(t_c(), enc(e_c(), s, s.len()) + x) == (units(bytes(), s, s.len()), x),
{
    assert forall|c: char, n: Option<char>, y: Seq<char>| #[trigger] one(e_c(), t_c(), bytes(), always(), c, n, y) by { lemma_c_one(c, n, y); }
    theorem_round(e_c(), t_c(), bytes(), always(), s, s.len(), x);
    if x.len() == 0 || t_c()(x) is None { theorem_ends(e_c(), t_c(), bytes(), always(), s, x); }
}
/// a character that is no hex digit is followed by something that starts with no hex digit
pub open spec fn m_cfam() -> Compat { |n: Option<char>, x: Seq<char>| n is Some && !is_hex(n->0) ==> x.len() > 0 && !is_hex(x[0]) }

pub proof fn lemma_cfam_one(c: char, n: Option<char>, x: Seq<char>)
    ensures one(e_cfam(), t_go(), code(), m_cfam(), c, n, x), one(e_cfam(), t_py(), code(), m_cfam(), c, n, x), one(e_cfam(), t_cs(), code(), m_cfam(), c, n, x),
{
    hide(dec);
    if m_cfam()(n, x) {
        lemma_pows();
        let v = c as nat; let w = e_cfam()(c, n); let s = w + x;
        assert(w.len() > 0 ==> s[0] == w[0]);
        assert(w.len() > 1 ==> s[1] == w[1]);
        if c < '\u{80}' { lemma_fixed(16, seq!['\\', 'x'], 2, v, x); lemma_num(16, 2, v); }
        if (c as u32) < 0x10000 { lemma_fixed(16, seq!['\\', 'u'], 4, v, x); }
        lemma_fixed(16, seq!['\\', 'U'], 8, v, x);
        reveal_with_fuel(hexes, 5);
        if c < '\u{80}' && w == seq!['\\', 'x'] + num(16, 2, v) {
            assert(s[2] == num(16, 2, v)[0] && s[3] == num(16, 2, v)[1] && s[4] == x[0]);
            assert(hexes(s, 2, 4) == 2);
        }
        lemma_tok(t_go(), w, x, seq![v]); lemma_tok(t_py(), w, x, seq![v]); lemma_tok(t_cs(), w, x, seq![v]);
    }
}
/// text quoted for C#, Go and Python reads back as itself in those languages, and ends where it was ended
pub proof fn theorem_go(s: Seq<char>, x: Seq<char>)
    ensures dec(t_go(), enc(e_cfam(), s, s.len()) + x) == prepend(units(code(), s, s.len()), dec(t_go(), x)),
        x.len() == 0 || t_go()(x) is None ==> dec(t_go(), enc(e_cfam(), s, s.len()) + x) == (units(code(), s, s.len()), x),
{
    assert forall|c: char, n: Option<char>, y: Seq<char>| #[trigger] one(e_cfam(), t_go(), code(), m_cfam(), c, n, y) by { lemma_cfam_one(c, n, y); }
    theorem_round(e_cfam(), t_go(), code(), m_cfam(), s, s.len(), x);
    if x.len() == 0 || t_go()(x) is None { theorem_ends(e_cfam(), t_go(), code(), m_cfam(), s, x); }
}
pub proof fn theorem_py(s: Seq<char>, x: Seq<char>)
    ensures dec(t_py(), enc(e_cfam(), s, s.len()) + x) == prepend(units(code(), s, s.len()), dec(t_py(), x)),
        x.len() == 0 || t_py()(x) is None ==> dec(t_py(), enc(e_cfam(), s, s.len()) + x) == (units(code(), s, s.len()), x),
{
    assert forall|c: char, n: Option<char>, y: Seq<char>| #[trigger] one(e_cfam(), t_py(), code(), m_cfam(), c, n, y) by { lemma_cfam_one(c, n, y); }
    theorem_round(e_cfam(), t_py(), code(), m_cfam(), s, s.len(), x);
    if x.len() == 0 || t_py()(x) is None { theorem_ends(e_cfam(), t_py(), code(), m_cfam(), s, x); }
}
pub proof fn theorem_cs(s: Seq<char>, x: Seq<char>)
    ensures dec(t_cs(), enc(e_cfam(), s, s.len()) + x) == prepend(units(code(), s, s.len()), dec(t_cs(), x)),
        x.len() == 0 || t_cs()(x) is None ==> dec(t_cs(), enc(e_cfam(), s, s.len()) + x) == (units(code(), s, s.len()), x),
{
    assert forall|c: char, n: Option<char>, y: Seq<char>| #[trigger] one(e_cfam(), t_cs(), code(), m_cfam(), c, n, y) by { lemma_cfam_one(c, n, y); }
    theorem_round(e_cfam(), t_cs(), code(), m_cfam(), s, s.len(), x);
    if x.len() == 0 || t_cs()(x) is None { theorem_ends(e_cfam(), t_cs(), code(), m_cfam(), s, x); }
}
// ---- the hooks of the languages: each crate::lang::Lang impl, defaults included, against the contract of unit fmt ----
pub struct C;
impl LangStr for C {
    type Config = u8;
    type Format = u8;
    open spec fn s_open(config: &u8, format: &u8, e: bool) -> Seq<char> { seq!['"'] }
    open spec fn s_close(config: &u8, format: &u8, e: bool) -> Seq<char> { seq!['"'] }
    open spec fn s_eval_lit(config: &u8, format: &u8, s: Seq<char>) -> Seq<char> { s }
    open spec fn s_start_eval(config: &u8, format: &u8) -> Seq<char> { seq![] }
    open spec fn s_end_eval(config: &u8, format: &u8) -> Seq<char> { seq![] }
    open spec fn s_quoted(s: Seq<char>) -> Seq<char> { enc(e_c(), s, s.len()) }
@fn lang::c|C|Lang|open_quote -> r nopub reveal
@fallback lang||trait Lang|open_quote
@done
@fn lang::c|C|Lang|close_quote -> r nopub reveal
@fallback lang||trait Lang|close_quote
@done
@fn lang::c|C|Lang|string_eval_literal -> r nopub reveal
@fallback lang||trait Lang|string_eval_literal
@done
@fn lang::c|C|Lang|start_string_eval -> r nopub reveal
@fallback lang||trait Lang|start_string_eval
@start
    proof { lemma_ws(_out.write.st(), seq![], seq![]); }
@done
@fn lang::c|C|Lang|end_string_eval -> r nopub reveal
@fallback lang||trait Lang|end_string_eval
@start
    proof { lemma_ws(_out.write.st(), seq![], seq![]); }
@done
@fn lang::c|C|Lang|write_quoted -> r nopub reveal
@fallback lang||trait Lang|write_quoted
@start
    let ghost mut k: nat = 0;
    proof { lemma_ws(out.write.st(), seq![], seq![]); }
@loop 0 for
    invariant it0.seq() == input@, k == it0.index(), k <= input@.len(), wrote(*old(out), *out, Ok(()), enc(e_c(), input@, k)), old(out).wf(),
@lstart 0
    let ghost o1 = *out;
    proof { assert(enc(e_cfam(), seq![c], 0) =~= seq![]); assert(enc(e_cfam(), seq![c], 1) =~= e_cfam()(c, None)); }
@lend 0
    proof {
        k = k + 1;
        lemma_wrote(*old(out), o1, *out, Ok(()), enc(e_c(), input@, (k - 1) as nat), e_c()(input@[k - 1], nxt(input@, k - 1)));
    }
@arm
    let _t = &mut *out;
@done
}
pub struct Csharp;
impl LangStr for Csharp {
    type Config = u8;
    type Format = u8;
    open spec fn s_open(config: &u8, format: &u8, e: bool) -> Seq<char> { seq!['"'] }
    open spec fn s_close(config: &u8, format: &u8, e: bool) -> Seq<char> { seq!['"'] }
    open spec fn s_eval_lit(config: &u8, format: &u8, s: Seq<char>) -> Seq<char> { s }
    open spec fn s_start_eval(config: &u8, format: &u8) -> Seq<char> { seq![] }
    open spec fn s_end_eval(config: &u8, format: &u8) -> Seq<char> { seq![] }
    open spec fn s_quoted(s: Seq<char>) -> Seq<char> { enc(e_cfam(), s, s.len()) }
@fn lang::csharp|Csharp|Lang|open_quote -> r nopub reveal
@fallback lang||trait Lang|open_quote
@done
@fn lang::csharp|Csharp|Lang|close_quote -> r nopub reveal
@fallback lang||trait Lang|close_quote
@done
@fn lang::csharp|Csharp|Lang|string_eval_literal -> r nopub reveal
@fallback lang||trait Lang|string_eval_literal
@done
@fn lang::csharp|Csharp|Lang|start_string_eval -> r nopub reveal
@fallback lang||trait Lang|start_string_eval
@start
    proof { lemma_ws(_out.write.st(), seq![], seq![]); }
@done
@fn lang::csharp|Csharp|Lang|end_string_eval -> r nopub reveal
@fallback lang||trait Lang|end_string_eval
@start
    proof { lemma_ws(_out.write.st(), seq![], seq![]); }
@done
@fn lang::csharp|Csharp|Lang|write_quoted -> r nopub reveal
@fallback lang||trait Lang|write_quoted
@done
}
pub struct Go;
impl LangStr for Go {
    type Config = u8;
    type Format = u8;
    open spec fn s_open(config: &u8, format: &u8, e: bool) -> Seq<char> { seq!['"'] }
    open spec fn s_close(config: &u8, format: &u8, e: bool) -> Seq<char> { seq!['"'] }
    open spec fn s_eval_lit(config: &u8, format: &u8, s: Seq<char>) -> Seq<char> { s }
    open spec fn s_start_eval(config: &u8, format: &u8) -> Seq<char> { seq![] }
    open spec fn s_end_eval(config: &u8, format: &u8) -> Seq<char> { seq![] }
    open spec fn s_quoted(s: Seq<char>) -> Seq<char> { enc(e_cfam(), s, s.len()) }
@fn lang::go|Go|Lang|open_quote -> r nopub reveal
@fallback lang||trait Lang|open_quote
@done
@fn lang::go|Go|Lang|close_quote -> r nopub reveal
@fallback lang||trait Lang|close_quote
@done
@fn lang::go|Go|Lang|string_eval_literal -> r nopub reveal
@fallback lang||trait Lang|string_eval_literal
@done
@fn lang::go|Go|Lang|start_string_eval -> r nopub reveal
@fallback lang||trait Lang|start_string_eval
@start
    proof { lemma_ws(_out.write.st(), seq![], seq![]); }
@done
@fn lang::go|Go|Lang|end_string_eval -> r nopub reveal
@fallback lang||trait Lang|end_string_eval
@start
    proof { lemma_ws(_out.write.st(), seq![], seq![]); }
@done
@fn lang::go|Go|Lang|write_quoted -> r nopub reveal
@fallback lang||trait Lang|write_quoted
@done
}
pub struct Python;
impl LangStr for Python {
    type Config = u8;
    type Format = u8;
    open spec fn s_open(config: &u8, format: &u8, e: bool) -> Seq<char> { seq!['"'] }
    open spec fn s_close(config: &u8, format: &u8, e: bool) -> Seq<char> { seq!['"'] }
    open spec fn s_eval_lit(config: &u8, format: &u8, s: Seq<char>) -> Seq<char> { s }
    open spec fn s_start_eval(config: &u8, format: &u8) -> Seq<char> { seq![] }
    open spec fn s_end_eval(config: &u8, format: &u8) -> Seq<char> { seq![] }
    open spec fn s_quoted(s: Seq<char>) -> Seq<char> { enc(e_cfam(), s, s.len()) }
@fn lang::python|Python|Lang|open_quote -> r nopub reveal
@fallback lang||trait Lang|open_quote
@done
@fn lang::python|Python|Lang|close_quote -> r nopub reveal
@fallback lang||trait Lang|close_quote
@done
@fn lang::python|Python|Lang|string_eval_literal -> r nopub reveal
@fallback lang||trait Lang|string_eval_literal
@done
@fn lang::python|Python|Lang|start_string_eval -> r nopub reveal
@fallback lang||trait Lang|start_string_eval
@start
    proof { lemma_ws(_out.write.st(), seq![], seq![]); }
@done
@fn lang::python|Python|Lang|end_string_eval -> r nopub reveal
@fallback lang||trait Lang|end_string_eval
@start
    proof { lemma_ws(_out.write.st(), seq![], seq![]); }
@done
@fn lang::python|Python|Lang|write_quoted -> r nopub reveal
@fallback lang||trait Lang|write_quoted
@done
}
}
fn main() {}
