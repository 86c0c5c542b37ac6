@include quote_core.vrs

// ---- Rust ----
pub open spec fn e_rust() -> Enc { |c: char, n: Option<char>|
    if c == '\n' { seq!['\\', 'n'] } else if c == '\r' { seq!['\\', 'r'] } else if c == '\t' { seq!['\\', 't'] }
    else if c == '\\' { seq!['\\', '\\'] } else if c == '\0' { seq!['\\', '0'] } else if c == '"' { seq!['\\', '"'] }
    else if !is_ctl(c) { seq![c] }
    else if c < '\u{80}' { seq!['\\', 'x'] + num(16, 2, c as nat) }
    else { seq!['\\', 'u', '{'] + num(16, 4, c as nat) + seq!['}'] }
}
// ---- Swift ----
pub open spec fn e_swift() -> Enc { |c: char, n: Option<char>|
    if c == '\n' { seq!['\\', 'n'] } else if c == '\r' { seq!['\\', 'r'] } else if c == '\t' { seq!['\\', 't'] }
    else if c == '\\' { seq!['\\', '\\'] } else if c == '\0' { seq!['\\', '0'] } else if c == '"' { seq!['\\', '"'] }
    else if c == '\'' { seq!['\\', '\''] }
    else if !is_ctl(c) { seq![c] }
    else { seq!['\\', 'u', '{'] + num(16, 0, c as nat) + seq!['}'] }
}
// ---- Java ----
pub open spec fn e_java() -> Enc { |c: char, n: Option<char>|
    if c == '\n' { seq!['\\', 'n'] } else if c == '\r' { seq!['\\', 'r'] } else if c == '\t' { seq!['\\', 't'] }
    else if c == '\u{8}' { seq!['\\', 'b'] } else if c == '\u{c}' { seq!['\\', 'f'] }
    else if c == '\\' { seq!['\\', '\\'] } else if c == '"' { seq!['\\', '"'] } else if c == '\'' { seq!['\\', '\''] }
    else if c < '\u{80}' && !is_ctl(c) { seq![c] }
    else { esc16(utf16(c), utf16(c).len()) }
}
pub open spec fn esc16(u: Seq<u16>, k: nat) -> Seq<char> decreases k {
    if k == 0 { seq![] } else { esc16(u, (k - 1) as nat) + (seq!['\\', 'u'] + num(16, 4, u[k - 1] as nat)) }
}

// ---- how the languages read string literals ----
/// how many hex digits stand from k on, at most n
pub open spec fn hexes(s: Seq<char>, k: int, n: nat) -> nat decreases n {
    if n > 0 && 0 <= k < s.len() && is_hex(s[k]) { 1 + hexes(s, k + 1, (n - 1) as nat) } else { 0 }
}
pub open spec fn scalar(v: nat) -> bool { v <= 0x10ffff && !(0xd800 <= v <= 0xdfff) }
/// {digits} from k on: one to n hex digits (and no underscores, which Rust allows)
pub open spec fn braced(s: Seq<char>, k: int, n: nat) -> Option<(Seq<nat>, nat)> {
    if k < s.len() && s[k] == '{' {
        let d = hexes(s, k + 1, n);
        if 0 < d && k + 1 + d < s.len() && s[k + 1 + d] == '}' {
            match fixed(16, s, k + 1, d as int) { Some((v, l)) if scalar(v[0]) => Some((v, l + 1)), _ => None }
        } else { None }
    } else { None }
}
/// escapes Rust and Swift share
pub open spec fn simple(c: char) -> Option<nat> {
    if c == 'n' { Some(10) } else if c == 'r' { Some(13) } else if c == 't' { Some(9) } else if c == '0' { Some(0) }
    else if c == '"' || c == '\\' || c == '\'' { Some(c as nat) } else { None }
}
/// Rust reference, "String literals": \x has two digits and stays in ASCII, \u{} has up to six; CR may not stand alone
/// and CR LF is read as LF, so CR is taken as unreadable
pub open spec fn t_rust() -> Tok { |s: Seq<char>|
    if s[0] == '"' || s[0] == '\r' { None }
    else if s[0] != '\\' { lit(s[0] as nat, 1) }
    else if s.len() < 2 { None }
    else if simple(s[1]) is Some { lit(simple(s[1])->0, 2) }
    else if s[1] == 'x' { match fixed(16, s, 2, 2) { Some((v, l)) if v[0] < 0x80 => Some((v, l)), _ => None } }
    else if s[1] == 'u' { braced(s, 2, 6) } else { None }
}
/// The Swift Programming Language, "String Literals": one line, \u{} has one to eight digits, \( starts an interpolation
pub open spec fn t_swift() -> Tok { |s: Seq<char>|
    if s[0] == '"' || s[0] == '\n' || s[0] == '\r' { None }
    else if s[0] != '\\' { lit(s[0] as nat, 1) }
    else if s.len() < 2 { None }
    else if simple(s[1]) is Some { lit(simple(s[1])->0, 2) }
    else if s[1] == 'u' { braced(s, 2, 8) } else { None }
}
/// escapes of Java
pub open spec fn jsimple(c: char) -> Option<nat> {
    if c == 'n' { Some(10) } else if c == 'r' { Some(13) } else if c == 't' { Some(9) } else if c == 'b' { Some(8) } else if c == 'f' { Some(12) }
    else if c == '"' || c == '\\' || c == '\'' { Some(c as nat) } else { None }
}
/// JLS 3.3 and 3.10.5: \uXXXX is replaced before anything else is read (after an even number of backslashes, which is
/// what reading escape by escape amounts to), so it can stand for itself only if that means nothing in a literal.
/// The units are UTF-16 code units.
pub open spec fn t_java() -> Tok { |s: Seq<char>|
    if s[0] == '"' || s[0] == '\n' || s[0] == '\r' { None }
    else if s[0] != '\\' { Some((nats(utf16(s[0])), 1)) }
    else if s.len() < 2 { None }
    else if jsimple(s[1]) is Some { lit(jsimple(s[1])->0, 2) }
    else if s[1] == 'u' {
        match fixed(16, s, 2, 4) { Some((v, l)) if v[0] != '"' as nat && v[0] != '\\' as nat && v[0] != 10 && v[0] != 13 => Some((v, l)), _ => None }
    } else { None }
}
pub open spec fn nats(u: Seq<u16>) -> Seq<nat> { Seq::new(u.len(), |i: int| u[i] as nat) }
pub open spec fn units16() -> Units { |c: char| nats(utf16(c)) }

pub proof fn lemma_braced(v: nat, w: nat, k: nat, p: Seq<char>, x: Seq<char>)
    requires scalar(v), 1 <= k <= 6, p.len() == 2, num(16, w, v) == digs(16, k, v), v < pow(16, k),
    ensures ({ let s = p + seq!['{'] + num(16, w, v) + seq!['}'] + x;
        braced(s, 2, 6) == lit(v, 4 + k) && braced(s, 2, 8) == lit(v, 4 + k) }),
{
    let d = num(16, w, v);
    let s = p + seq!['{'] + d + seq!['}'] + x;
    lemma_digs(16, k, v);
    assert(at(s, 3, k as int) =~= d);
    assert(s[2] == '{'); assert(s[3 + k as int] == '}');
    assert forall|i: int| 0 <= i < k implies is_hex(#[trigger] s[3 + i]) by { assert(s[3 + i] == d[i]); assert(val(d[i]) < 16); }
    lemma_hexes(s, 3, k, 6); lemma_hexes(s, 3, k, 8);
}
pub proof fn lemma_hexes(s: Seq<char>, a: int, k: nat, n: nat)
    requires 0 <= a, k <= n, a + k < s.len(), forall|i: int| a <= i < a + k ==> is_hex(#[trigger] s[i]), !is_hex(s[a + k])
    ensures hexes(s, a, n) == k
    decreases n
{ if k > 0 { lemma_hexes(s, a + 1, (k - 1) as nat, (n - 1) as nat); } }
pub proof fn lemma_rust_one(c: char, n: Option<char>, x: Seq<char>)
    ensures one(e_rust(), t_rust(), code(), always(), c, n, x),
{
    hide(dec);
    lemma_pows();
    let v = c as nat; let w = e_rust()(c, n); let s = w + x;
    assert(w.len() > 0 ==> s[0] == w[0]);
    assert(w.len() > 1 ==> s[1] == w[1]);
    if is_ctl(c) && c < '\u{80}' { lemma_fixed(16, seq!['\\', 'x'], 2, v, x); }
    if is_ctl(c) && c >= '\u{80}' {
        lemma_num(16, 4, v);
        lemma_braced(v, 4, 4, seq!['\\', 'u'], x);
        assert(seq!['\\', 'u', '{'] + num(16, 4, v) + seq!['}'] + x =~= seq!['\\', 'u'] + seq!['{'] + num(16, 4, v) + seq!['}'] + x);
    }
    lemma_tok(t_rust(), w, x, seq![v]);
}
pub proof fn lemma_swift_one(c: char, n: Option<char>, x: Seq<char>)
    ensures one(e_swift(), t_swift(), code(), always(), c, n, x),
{
    hide(dec);
    lemma_pows();
    let v = c as nat; let w = e_swift()(c, n); let s = w + x;
    assert(w.len() > 0 ==> s[0] == w[0]);
    assert(w.len() > 1 ==> s[1] == w[1]);
    if is_ctl(c) {
        lemma_ndig(16, v, 2);
        lemma_digs(16, ndig(16, v), v);
        lemma_braced(v, 0, ndig(16, v), seq!['\\', 'u'], x);
        assert(seq!['\\', 'u', '{'] + num(16, 0, v) + seq!['}'] + x =~= seq!['\\', 'u'] + seq!['{'] + num(16, 0, v) + seq!['}'] + x);
    }
    lemma_tok(t_swift(), w, x, seq![v]);
}
pub proof fn lemma_java_u(u: u16, x: Seq<char>)
    requires u != '"' as u16, u != '\\' as u16, u != 10, u != 13
    ensures dec(t_java(), seq!['\\', 'u'] + num(16, 4, u as nat) + x) == prepend(seq![u as nat], dec(t_java(), x))
{
    hide(dec);
    lemma_pows();
    let w = seq!['\\', 'u'] + num(16, 4, u as nat);
    lemma_fixed(16, seq!['\\', 'u'], 4, u as nat, x);
    assert((w + x)[0] == '\\' && (w + x)[1] == 'u');
    lemma_tok(t_java(), w, x, seq![u as nat]);
}
pub proof fn lemma_java_one(c: char, n: Option<char>, x: Seq<char>)
    ensures one(e_java(), t_java(), units16(), always(), c, n, x),
{
    hide(dec);
    let v = c as nat; let w = e_java()(c, n); let s = w + x;
    if c >= '\u{80}' || is_ctl(c) && jesc(c) is None {
        let u = utf16(c);
        reveal_with_fuel(esc16, 3);
        let e0 = seq!['\\', 'u'] + num(16, 4, u[0] as nat);
        if u.len() == 1 {
            assert(w =~= e0);
            lemma_java_u(u[0], x);
            assert(nats(u) =~= seq![u[0] as nat]);
        } else {
            let e1 = seq!['\\', 'u'] + num(16, 4, u[1] as nat);
            assert(w =~= e0 + e1);
            assert(s =~= e0 + (e1 + x));
            let a = (c as u32 - 0x10000) / 0x400; let b = (c as u32 - 0x10000) % 0x400;
            assert(a < 0x400 && b < 0x400);
            lemma_java_u(u[1], x); lemma_java_u(u[0], e1 + x);
            let r = dec(t_java(), x).0;
            assert(seq![u[0] as nat] + (seq![u[1] as nat] + r) =~= nats(u) + r);
        }
    } else {
        assert(w.len() > 0 ==> s[0] == w[0]);
        assert(w.len() > 1 ==> s[1] == w[1]);
        assert(nats(utf16(c)) =~= seq![v]);
        lemma_tok(t_java(), w, x, seq![v]);
    }
}
pub open spec fn jesc(c: char) -> Option<char> {
    if c == '\n' || c == '\r' || c == '\t' || c == '\u{8}' || c == '\u{c}' { Some(c) } else { None }
}
/// text quoted for Rust reads back as itself, and ends where it was ended
pub proof fn theorem_rust(s: Seq<char>, x: Seq<char>)
    ensures dec(t_rust(), enc(e_rust(), s, s.len()) + x) == prepend(units(code(), s, s.len()), dec(t_rust(), x)),
        x.len() == 0 || t_rust()(x) is None ==> dec(t_rust(), enc(e_rust(), s, s.len()) + x) == (units(code(), s, s.len()), x),
{
    assert forall|c: char, n: Option<char>, y: Seq<char>| #[trigger] one(e_rust(), t_rust(), code(), always(), c, n, y) by { lemma_rust_one(c, n, y); }
    theorem_round(e_rust(), t_rust(), code(), always(), s, s.len(), x);
    if x.len() == 0 || t_rust()(x) is None { theorem_ends(e_rust(), t_rust(), code(), always(), s, x); }
}
/// text quoted for Swift reads back as itself, and ends where it was ended
pub proof fn theorem_swift(s: Seq<char>, x: Seq<char>)
    ensures dec(t_swift(), enc(e_swift(), s, s.len()) + x) == prepend(units(code(), s, s.len()), dec(t_swift(), x)),
        x.len() == 0 || t_swift()(x) is None ==> dec(t_swift(), enc(e_swift(), s, s.len()) + x) == (units(code(), s, s.len()), x),
{
    assert forall|c: char, n: Option<char>, y: Seq<char>| #[trigger] one(e_swift(), t_swift(), code(), always(), c, n, y) by { lemma_swift_one(c, n, y); }
    theorem_round(e_swift(), t_swift(), code(), always(), s, s.len(), x);
    if x.len() == 0 || t_swift()(x) is None { theorem_ends(e_swift(), t_swift(), code(), always(), s, x); }
}
/// text quoted for Java reads back as its UTF-16 code units, and ends where it was ended
pub proof fn theorem_java(s: Seq<char>, x: Seq<char>)
    ensures dec(t_java(), enc(e_java(), s, s.len()) + x) == prepend(units(units16(), s, s.len()), dec(t_java(), x)),
        x.len() == 0 || t_java()(x) is None ==> dec(t_java(), enc(e_java(), s, s.len()) + x) == (units(units16(), s, s.len()), x),
{
    assert forall|c: char, n: Option<char>, y: Seq<char>| #[trigger] one(e_java(), t_java(), units16(), always(), c, n, y) by { lemma_java_one(c, n, y); }
    theorem_round(e_java(), t_java(), units16(), always(), s, s.len(), x);
    if x.len() == 0 || t_java()(x) is None { theorem_ends(e_java(), t_java(), units16(), always(), s, x); }
}
// ---- the hooks of the languages: each crate::lang::Lang impl, defaults included, against the contract of unit fmt ----
pub struct Rust;
impl LangStr for Rust {
    type Config = u8;
    type Format = u8;
    open spec fn s_open(config: &u8, format: &u8, e: bool) -> Seq<char> { seq!['"'] }
    open spec fn s_close(config: &u8, format: &u8, e: bool) -> Seq<char> { seq!['"'] }
    open spec fn s_eval_lit(config: &u8, format: &u8, s: Seq<char>) -> Seq<char> { s }
    open spec fn s_start_eval(config: &u8, format: &u8) -> Seq<char> { seq![] }
    open spec fn s_end_eval(config: &u8, format: &u8) -> Seq<char> { seq![] }
    open spec fn s_quoted(s: Seq<char>) -> Seq<char> { enc(e_rust(), s, s.len()) }
@fn lang::rust|Rust|Lang|open_quote -> r nopub reveal
@fallback lang||trait Lang|open_quote
@done
@fn lang::rust|Rust|Lang|close_quote -> r nopub reveal
@fallback lang||trait Lang|close_quote
@done
@fn lang::rust|Rust|Lang|string_eval_literal -> r nopub reveal
@fallback lang||trait Lang|string_eval_literal
@done
@fn lang::rust|Rust|Lang|start_string_eval -> r nopub reveal
@fallback lang||trait Lang|start_string_eval
@start
    proof { lemma_ws(_out.write.st(), seq![], seq![]); }
@done
@fn lang::rust|Rust|Lang|end_string_eval -> r nopub reveal
@fallback lang||trait Lang|end_string_eval
@start
    proof { lemma_ws(_out.write.st(), seq![], seq![]); }
@done
@fn lang::rust|Rust|Lang|write_quoted -> r nopub reveal
@fallback lang||trait Lang|write_quoted
@start
    let ghost mut k: nat = 0;
    proof { lemma_ws(out.write.st(), seq![], seq![]); }
@loop 0 for
    invariant it0.seq() == input@, k == it0.index(), k <= input@.len(), wrote(*old(out), *out, Ok(()), enc(e_rust(), input@, k)), old(out).wf(),
@lstart 0
    let ghost o1 = *out;
@lend 0
    proof {
        k = k + 1;
        lemma_wrote(*old(out), o1, *out, Ok(()), enc(e_rust(), input@, (k - 1) as nat), e_rust()(input@[k - 1], nxt(input@, k - 1)));
    }
@arm
    let _t = &mut *out;
@done
}
pub struct Swift;
impl LangStr for Swift {
    type Config = u8;
    type Format = u8;
    open spec fn s_open(config: &u8, format: &u8, e: bool) -> Seq<char> { seq!['"'] }
    open spec fn s_close(config: &u8, format: &u8, e: bool) -> Seq<char> { seq!['"'] }
    open spec fn s_eval_lit(config: &u8, format: &u8, s: Seq<char>) -> Seq<char> { s }
    open spec fn s_start_eval(config: &u8, format: &u8) -> Seq<char> { seq![] }
    open spec fn s_end_eval(config: &u8, format: &u8) -> Seq<char> { seq![] }
    open spec fn s_quoted(s: Seq<char>) -> Seq<char> { enc(e_swift(), s, s.len()) }
@fn lang::swift|Swift|Lang|open_quote -> r nopub reveal
@fallback lang||trait Lang|open_quote
@done
@fn lang::swift|Swift|Lang|close_quote -> r nopub reveal
@fallback lang||trait Lang|close_quote
@done
@fn lang::swift|Swift|Lang|string_eval_literal -> r nopub reveal
@fallback lang||trait Lang|string_eval_literal
@done
@fn lang::swift|Swift|Lang|start_string_eval -> r nopub reveal
@fallback lang||trait Lang|start_string_eval
@start
    proof { lemma_ws(_out.write.st(), seq![], seq![]); }
@done
@fn lang::swift|Swift|Lang|end_string_eval -> r nopub reveal
@fallback lang||trait Lang|end_string_eval
@start
    proof { lemma_ws(_out.write.st(), seq![], seq![]); }
@done
@fn lang::swift|Swift|Lang|write_quoted -> r nopub reveal
@fallback lang||trait Lang|write_quoted
@start
    let ghost mut k: nat = 0;
    proof { lemma_ws(out.write.st(), seq![], seq![]); }
@loop 0 for
    invariant it0.seq() == input@, k == it0.index(), k <= input@.len(), wrote(*old(out), *out, Ok(()), enc(e_swift(), input@, k)), old(out).wf(),
@lstart 0
    let ghost o1 = *out;
@lend 0
    proof {
        k = k + 1;
        lemma_wrote(*old(out), o1, *out, Ok(()), enc(e_swift(), input@, (k - 1) as nat), e_swift()(input@[k - 1], nxt(input@, k - 1)));
    }
@arm
    let _t = &mut *out;
@done
}
pub struct Java;
impl LangStr for Java {
    type Config = u8;
    type Format = u8;
    open spec fn s_open(config: &u8, format: &u8, e: bool) -> Seq<char> { seq!['"'] }
    open spec fn s_close(config: &u8, format: &u8, e: bool) -> Seq<char> { seq!['"'] }
    open spec fn s_eval_lit(config: &u8, format: &u8, s: Seq<char>) -> Seq<char> { s }
    open spec fn s_start_eval(config: &u8, format: &u8) -> Seq<char> { seq![] }
    open spec fn s_end_eval(config: &u8, format: &u8) -> Seq<char> { seq![] }
    open spec fn s_quoted(s: Seq<char>) -> Seq<char> { enc(e_java(), s, s.len()) }
@fn lang::java|Java|Lang|open_quote -> r nopub reveal
@fallback lang||trait Lang|open_quote
@done
@fn lang::java|Java|Lang|close_quote -> r nopub reveal
@fallback lang||trait Lang|close_quote
@done
@fn lang::java|Java|Lang|string_eval_literal -> r nopub reveal
@fallback lang||trait Lang|string_eval_literal
@done
@fn lang::java|Java|Lang|start_string_eval -> r nopub reveal
@fallback lang||trait Lang|start_string_eval
@start
    proof { lemma_ws(_out.write.st(), seq![], seq![]); }
@done
@fn lang::java|Java|Lang|end_string_eval -> r nopub reveal
@fallback lang||trait Lang|end_string_eval
@start
    proof { lemma_ws(_out.write.st(), seq![], seq![]); }
@done
@fn lang::java|Java|Lang|write_quoted -> r nopub reveal
@fallback lang||trait Lang|write_quoted
@start
    let ghost mut j: nat = 0;
    let ghost mut k: nat = 0;
    proof { lemma_ws(out.write.st(), seq![], seq![]); }
@loop 0 for
    invariant it0.seq() == input@, k == it0.index(), k <= input@.len(), wrote(*old(out), *out, Ok(()), enc(e_java(), input@, k)), old(out).wf(),
@lstart 0
    proof { j = 0; assert(enc(e_java(), input@, k) + esc16(utf16(input@[k as int]), 0) =~= enc(e_java(), input@, k)); }
    let ghost o1 = *out;
@lend 0
    proof {
        k = k + 1;
        if j == 0 { lemma_wrote(*old(out), o1, *out, Ok(()), enc(e_java(), input@, (k - 1) as nat), e_java()(input@[k - 1], nxt(input@, k - 1))); }
    }
@loop 1 for
    invariant it1.seq() == utf16(input@[k as int]), j == it1.index(), j <= it1.seq().len(), k < input@.len(), wrote(*old(out), *out, Ok(()), enc(e_java(), input@, k) + esc16(utf16(input@[k as int]), j)), old(out).wf(),
@lstart 1
    let ghost o2 = *out;
@lend 1
    proof {
        j = j + 1;
        lemma_wrote(*old(out), o2, *out, Ok(()), enc(e_java(), input@, k) + esc16(utf16(input@[k as int]), (j - 1) as nat), seq!['\\', 'u'] + num(16, 4, c as nat));
        assert(enc(e_java(), input@, k) + esc16(utf16(input@[k as int]), j) =~= enc(e_java(), input@, k) + esc16(utf16(input@[k as int]), (j - 1) as nat) + (seq!['\\', 'u'] + num(16, 4, c as nat)));
    }
@arm
    let _t = &mut *out;
@done
}
}
fn main() {}
