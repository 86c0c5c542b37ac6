@include quote_core.vrs

// ---- JavaScript ----
pub open spec fn e_js() -> Enc { |c: char, n: Option<char>|
    if c == '\u{8}' { seq!['\\', 'b'] } else if c == '\u{c}' { seq!['\\', 'f'] } else if c == '\n' { seq!['\\', 'n'] }
    else if c == '\r' { seq!['\\', 'r'] } else if c == '\t' { seq!['\\', 't'] } else if c == '\u{b}' { seq!['\\', 'v'] }
    else if c == '"' { seq!['\\', '"'] } else if c == '\\' { seq!['\\', '\\'] } else if c == '`' { seq!['\\', '`'] }
    else if c == '$' && (n is None || n->0 == '{') { seq!['\\', '$'] }
    else if !is_ctl(c) { seq![c] } else { seq!['\\', 'x'] + num(16, 2, c as nat) }
}
// ---- Dart ----
pub open spec fn e_dart() -> Enc { |c: char, n: Option<char>|
    if c == '\u{8}' { seq!['\\', 'b'] } else if c == '\u{c}' { seq!['\\', 'f'] } else if c == '\n' { seq!['\\', 'n'] }
    else if c == '\r' { seq!['\\', 'r'] } else if c == '\t' { seq!['\\', 't'] } else if c == '\u{b}' { seq!['\\', 'v'] }
    else if c == '"' { seq!['\\', '"'] } else if c == '\\' { seq!['\\', '\\'] } else if c == '$' { seq!['\\', '$'] }
    else if !is_ctl(c) { seq![c] } else { seq!['\\', 'x'] + num(16, 2, c as nat) }
}

// ---- how the languages read string literals ----
pub open spec fn simple(c: char) -> Option<nat> {
    if c == 'b' { Some(8) } else if c == 'f' { Some(12) } else if c == 'n' { Some(10) }
    else if c == 'r' { Some(13) } else if c == 't' { Some(9) } else if c == 'v' { Some(11) } 
    else if c == '"' || c == '`' || c == '$' || c == '\\' || c == '\'' { Some(c as nat) } else { None }
}
pub open spec fn braced(s: Seq<char>, k: int, n: int) -> Option<(Seq<nat>, nat)> {
    if k < s.len() && n > 0 {
        if s[k] == '}' { fixed(16, s.take(k), k, 0) } else { None }
    } else { None }
}
/// ECMA-262 12.9.4 and 12.9.6: read the same in "..." and in `...`, where a backtick ends the literal and ${ starts a
/// substitution (other escapes exist; they are not needed and taken as unreadable)
pub open spec fn t_js() -> Tok { |s: Seq<char>|
    if s[0] == '"' || s[0] == '\n' || s[0] == '\r' || s[0] == '`' || s[0] == '$' && s.len() > 1 && s[1] == '{' { None }
    else if s[0] != '\\' { lit(s[0] as nat, 1) }
    else if s.len() < 2 { None }
    else if simple(s[1]) is Some { lit(simple(s[1])->0, 2) }
    else if s[1] == 'x' { fixed(16, s, 2, 2) } else { None }
}
/// Dart specification, "Strings": $ starts an interpolation
pub open spec fn t_dart() -> Tok { |s: Seq<char>|
    if s[0] == '"' || s[0] == '\n' || s[0] == '\r' || s[0] == '$' { None }
    else if s[0] != '\\' { lit(s[0] as nat, 1) }
    else if s.len() < 2 { None }
    else if simple(s[1]) is Some { lit(simple(s[1])->0, 2) }
    else if s[1] == 'x' { fixed(16, s, 2, 2) } else { None }
}
/// only { is written as {
pub open spec fn m_js() -> Compat { |n: Option<char>, x: Seq<char>| n is Some && n->0 != '{' ==> x.len() > 0 && x[0] != '{' }
pub proof fn lemma_js_one(c: char, n: Option<char>, x: Seq<char>)
    ensures one(e_js(), t_js(), code(), m_js(), c, n, x),
{
    if m_js()(n, x) {
        lemma_pows();
        let v = c as nat; let w = e_js()(c, n); let s = w + x;
        assert(w.len() > 0 ==> s[0] == w[0]);
        assert(w.len() > 1 ==> s[1] == w[1]);
        if w.len() == 1 && x.len() > 0 { assert(s[1] == x[0]); }
        if is_ctl(c) { lemma_fixed(16, seq!['\\', 'x'], 2, v, x); }
        lemma_tok(t_js(), w, x, seq![v]);
    }
}
pub proof fn lemma_dart_one(c: char, n: Option<char>, x: Seq<char>)
    ensures one(e_dart(), t_dart(), code(), always(), c, n, x),
{
    lemma_pows();
    let v = c as nat; let w = e_dart()(c, n); let s = w + x;
    assert(w.len() > 0 ==> s[0] == w[0]);
    assert(w.len() > 1 ==> s[1] == w[1]);
    if is_ctl(c) { lemma_fixed(16, seq!['\\', 'x'], 2, v, x); }
    lemma_tok(t_dart(), w, x, seq![v]);
}
/// text quoted for JavaScript reads back as itself in both kinds of literal, and ends where it was ended (by ", ` or ${)
pub proof fn theorem_js(s: Seq<char>, x: Seq<char>)
    ensures dec(t_js(), enc(e_js(), s, s.len()) + x) == prepend(units(code(), s, s.len()), dec(t_js(), x)),
        x.len() == 0 || t_js()(x) is None ==> dec(t_js(), enc(e_js(), s, s.len()) + x) == (units(code(), s, s.len()), x),
{
    assert forall|c: char, n: Option<char>, y: Seq<char>| #[trigger] one(e_js(), t_js(), code(), m_js(), c, n, y) by { lemma_js_one(c, n, y); }
    theorem_round(e_js(), t_js(), code(), m_js(), s, s.len(), x);
    if x.len() == 0 || t_js()(x) is None { theorem_ends(e_js(), t_js(), code(), m_js(), s, x); }
}
/// text quoted for Dart reads back as itself, and ends where it was ended (by " or $)
pub proof fn theorem_dart(s: Seq<char>, x: Seq<char>)
    ensures dec(t_dart(), enc(e_dart(), s, s.len()) + x) == prepend(units(code(), s, s.len()), dec(t_dart(), x)),
        x.len() == 0 || t_dart()(x) is None ==> dec(t_dart(), enc(e_dart(), s, s.len()) + x) == (units(code(), s, s.len()), x),
{
    assert forall|c: char, n: Option<char>, y: Seq<char>| #[trigger] one(e_dart(), t_dart(), code(), always(), c, n, y) by { lemma_dart_one(c, n, y); }
    theorem_round(e_dart(), t_dart(), code(), always(), s, s.len(), x);
    if x.len() == 0 || t_dart()(x) is None { theorem_ends(e_dart(), t_dart(), code(), always(), s, x); }
}
// ---- quotes and interpolations: the crate::lang::Lang impls, defaults included, against the contract of unit fmt ----
pub open spec fn js_q(e: bool) -> Seq<char> { if e { seq!['`'] } else { seq!['"'] } }
pub open spec fn id_part(c: char) -> bool { c == '_' || is_alpha(c) || ('0' <= c && c <= '9') }
/// an identifier, as far as $name goes
pub open spec fn is_ident(s: Seq<char>) -> bool {
    s.len() > 0 && !('0' <= s[0] && s[0] <= '9') && forall|i: int| 0 <= i < s.len() ==> id_part(#[trigger] s[i])
}
pub struct JavaScript;
impl LangStr for JavaScript {
    type Config = u8;
    type Format = u8;
    open spec fn s_open(config: &u8, format: &u8, e: bool) -> Seq<char> { js_q(e) }
    open spec fn s_close(config: &u8, format: &u8, e: bool) -> Seq<char> { js_q(e) }
    open spec fn s_eval_lit(config: &u8, format: &u8, s: Seq<char>) -> Seq<char> { seq!['$', '{'] + s + seq!['}'] }
    open spec fn s_start_eval(config: &u8, format: &u8) -> Seq<char> { seq!['$', '{'] }
    open spec fn s_end_eval(config: &u8, format: &u8) -> Seq<char> { seq!['}'] }
    open spec fn s_quoted(s: Seq<char>) -> Seq<char> { enc(e_js(), s, s.len()) }
@fn lang::js|JavaScript|Lang|open_quote -> r nopub reveal
@fallback lang||trait Lang|open_quote
@done
@fn lang::js|JavaScript|Lang|close_quote -> r nopub reveal
@fallback lang||trait Lang|close_quote
@done
@fn lang::js|JavaScript|Lang|string_eval_literal -> r nopub reveal
@fallback lang||trait Lang|string_eval_literal
@start
    proof { lemma_emit3(out.cfg(), out.fs(), seq!['$', '{'], literal@, seq!['}']); lemma_ws(out.write.st(), seq![], seq![]); }
@done
@fn lang::js|JavaScript|Lang|start_string_eval -> r nopub reveal
@fallback lang||trait Lang|start_string_eval
@done
@fn lang::js|JavaScript|Lang|end_string_eval -> r nopub reveal
@fallback lang||trait Lang|end_string_eval
@done
@fn lang::js|JavaScript|Lang|write_quoted -> r nopub reveal
@fallback lang||trait Lang|write_quoted
@start
    let ghost mut k: nat = 0;
    proof { lemma_ws(out.write.st(), seq![], seq![]); }
@loop 0 while
    invariant k <= input@.len(), it.rest() == input@.skip(k as int), wrote(*old(out), *out, Ok(()), enc(e_js(), input@, k)), old(out).wf(),
    ensures k == input@.len(),
    decreases it.rest().len(),
@lstart 0
    let ghost o1 = *out;
@lend 0
    proof {
        k = k + 1;
        lemma_wrote(*old(out), o1, *out, Ok(()), enc(e_js(), input@, (k - 1) as nat), e_js()(input@[k - 1], nxt(input@, k - 1)));
    }
@arm
    let _t = &mut *out;
@done
}
pub struct Dart;
impl LangStr for Dart {
    type Config = u8;
    type Format = u8;
    open spec fn s_open(config: &u8, format: &u8, e: bool) -> Seq<char> { seq!['"'] }
    open spec fn s_close(config: &u8, format: &u8, e: bool) -> Seq<char> { seq!['"'] }
    open spec fn s_eval_lit(config: &u8, format: &u8, s: Seq<char>) -> Seq<char> { if is_ident(s) { seq!['$'] + s } else { seq!['$', '{'] + s + seq!['}'] } }
    open spec fn s_start_eval(config: &u8, format: &u8) -> Seq<char> { seq!['$', '{'] }
    open spec fn s_end_eval(config: &u8, format: &u8) -> Seq<char> { seq!['}'] }
    open spec fn s_quoted(s: Seq<char>) -> Seq<char> { enc(e_dart(), s, s.len()) }
@fn lang::dart|Dart|Lang|open_quote -> r nopub reveal
@fallback lang||trait Lang|open_quote
@done
@fn lang::dart|Dart|Lang|close_quote -> r nopub reveal
@fallback lang||trait Lang|close_quote
@done
@fn lang::dart|Dart|Lang|string_eval_literal -> r nopub reveal
@fallback lang||trait Lang|string_eval_literal
@start
    let ghost s = literal@; let ghost mut k: nat = 0;
@loop 0 for
    invariant s == literal@, s.len() > 0 ==> it0.seq() == s.skip(1), s.len() == 0 ==> it0.seq().len() == 0, k == it0.index(), s.len() > 0 ==> k < s.len(), s.len() > 0 ==> ident == (!('0' <= s[0] && s[0] <= '9') && forall|i: int| 0 <= i < k + 1 ==> id_part(#[trigger] s[i])), s.len() == 0 ==> !ident, old(out).wf(), *out == *old(out),
@lend 0
    proof { k = k + 1; }
@arm
    let _t = &mut *out;
@done
@fn lang::dart|Dart|Lang|start_string_eval -> r nopub reveal
@fallback lang||trait Lang|start_string_eval
@done
@fn lang::dart|Dart|Lang|end_string_eval -> r nopub reveal
@fallback lang||trait Lang|end_string_eval
@done
@fn lang::dart|Dart|Lang|write_quoted -> r nopub reveal
@fallback lang||trait Lang|write_quoted
@start
    let ghost mut k: nat = 0;
    proof { lemma_ws(out.write.st(), seq![], seq![]); }
@loop 0 for
    invariant it0.seq() == input@, k == it0.index(), k <= input@.len(), wrote(*old(out), *out, Ok(()), enc(e_dart(), input@, k)), old(out).wf(),
@lstart 0
    let ghost o1 = *out;
@lend 0
    proof {
        k = k + 1;
        lemma_wrote(*old(out), o1, *out, Ok(()), enc(e_dart(), input@, (k - 1) as nat), e_dart()(input@[k - 1], nxt(input@, k - 1)));
    }
@loop 1 for
    invariant false,
@arm
    let _t = &mut *out;
@done
}
}
fn main() {}
