@include quote_core.vrs

// ---- Nix ----
pub open spec fn e_nix() -> Enc { |c: char, n: Option<char>|
    if c == '\n' { seq!['\\', 'n'] } else if c == '\r' { seq!['\\', 'r'] } else if c == '\t' { seq!['\\', 't'] }
    else if c == '"' || c == '\\' || c == '$' { seq!['\\', c] } else { seq![c] }
}
/// Nix manual, "String literals": a backslash makes n, r and t what they are elsewhere and leaves every other character
/// alone; ${ starts an interpolation; CR and CR LF are read as LF, so CR is taken as unreadable
pub open spec fn t_nix() -> Tok { |s: Seq<char>|
    if s[0] == '"' || s[0] == '\r' || s[0] == '$' && s.len() > 1 && s[1] == '{' { None }
    else if s[0] != '\\' { lit(s[0] as nat, 1) }
    else if s.len() < 2 { None }
    else if s[1] == 'n' { lit(10, 2) } else if s[1] == 'r' { lit(13, 2) } else if s[1] == 't' { lit(9, 2) }
    else if s[1] == '\r' { None } else { lit(s[1] as nat, 2) }
}
pub proof fn lemma_nix_one(c: char, n: Option<char>, x: Seq<char>)
    ensures one(e_nix(), t_nix(), code(), always(), c, n, x),
{
    hide(dec);
    let v = c as nat; let w = e_nix()(c, n); let s = w + x;
    assert(w.len() > 0 ==> s[0] == w[0]);
    assert(w.len() > 1 ==> s[1] == w[1]);
    lemma_tok(t_nix(), w, x, seq![v]);
}
/// text quoted for Nix reads back as itself, and ends where it was ended
pub proof fn theorem_nix(s: Seq<char>, x: Seq<char>)
    ensures dec(t_nix(), enc(e_nix(), s, s.len()) + x) == prepend(units(code(), s, s.len()), dec(t_nix(), x)),
        x.len() == 0 || t_nix()(x) is None ==> dec(t_nix(), enc(e_nix(), s, s.len()) + x) == (units(code(), s, s.len()), x),
{
    assert forall|c: char, n: Option<char>, y: Seq<char>| #[trigger] one(e_nix(), t_nix(), code(), always(), c, n, y) by { lemma_nix_one(c, n, y); }
    theorem_round(e_nix(), t_nix(), code(), always(), s, s.len(), x);
    if x.len() == 0 || t_nix()(x) is None { theorem_ends(e_nix(), t_nix(), code(), always(), s, x); }
}
// ---- the hooks of the language ----
pub struct Nix;
impl LangStr for Nix {
    type Config = u8;
    type Format = u8;
    open spec fn s_open(config: &u8, format: &u8, e: bool) -> Seq<char> { seq!['"'] }
    open spec fn s_close(config: &u8, format: &u8, e: bool) -> Seq<char> { seq!['"'] }
    open spec fn s_eval_lit(config: &u8, format: &u8, s: Seq<char>) -> Seq<char> { s }
    open spec fn s_start_eval(config: &u8, format: &u8) -> Seq<char> { seq![] }
    open spec fn s_end_eval(config: &u8, format: &u8) -> Seq<char> { seq![] }
    open spec fn s_quoted(s: Seq<char>) -> Seq<char> { enc(e_nix(), s, s.len()) }
@fn lang::nix|Nix|Lang|open_quote -> r nopub reveal
@fallback lang||trait Lang|open_quote
@done
@fn lang::nix|Nix|Lang|close_quote -> r nopub reveal
@fallback lang||trait Lang|close_quote
@done
@fn lang::nix|Nix|Lang|string_eval_literal -> r nopub reveal
@fallback lang||trait Lang|string_eval_literal
@done
@fn lang::nix|Nix|Lang|start_string_eval -> r nopub reveal
@fallback lang||trait Lang|start_string_eval
@start
    proof { lemma_ws(_out.write.st(), seq![], seq![]); }
@done
@fn lang::nix|Nix|Lang|end_string_eval -> r nopub reveal
@fallback lang||trait Lang|end_string_eval
@start
    proof { lemma_ws(_out.write.st(), seq![], seq![]); }
@done
@fn lang::nix|Nix|Lang|write_quoted -> r nopub reveal
@fallback lang||trait Lang|write_quoted
@start
    let ghost mut k: nat = 0;
    proof { lemma_ws(out.write.st(), seq![], seq![]); }
@loop 0 for
    invariant it0.seq() == input@, k == it0.index(), k <= input@.len(), wrote(*old(out), *out, Ok(()), enc(e_nix(), input@, k)), old(out).wf(),
@lstart 0
    let ghost o1 = *out;
@lend 0
    proof {
        k = k + 1;
        lemma_wrote(*old(out), o1, *out, Ok(()), enc(e_nix(), input@, (k - 1) as nat), e_nix()(input@[k - 1], nxt(input@, k - 1)));
    }
@arm
    let _t = &mut *out;
@done
}
}
fn main() {}
