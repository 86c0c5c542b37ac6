// ---- F: sinks, formatter state, what emitting text does ----
pub type FResult<T = ()> = Result<T, core::fmt::Error>;
/// what a sink holds: text, lines, or bytes
pub enum WS { Chars(Seq<char>), Lines(Seq<Seq<char>>, Seq<char>), Bytes(Seq<u8>) }
pub open spec fn ws_str(w: WS, s: Seq<char>) -> WS {
    match w { WS::Chars(c) => WS::Chars(c + s), WS::Lines(l, c) => WS::Lines(l, c + s), WS::Bytes(b) => WS::Bytes(b + encode_utf8(s)) }
}
pub open spec fn ws_nl(w: WS, nl: Seq<char>) -> WS {
    match w { WS::Chars(c) => WS::Chars(c + nl), WS::Lines(l, c) => WS::Lines(l.push(c), Seq::empty()), WS::Bytes(b) => WS::Bytes(b + encode_utf8(nl)) }
}
pub open spec fn ws_nls(w: WS, nl: Seq<char>, k: nat) -> WS decreases k {
    if k == 0 { w } else { ws_nl(ws_nls(w, nl, (k - 1) as nat), nl) }
}
/// the line break at the end of a file; a list of lines has none
pub open spec fn ws_end(w: WS, nl: Seq<char>) -> WS {
    match w { WS::Lines(l, c) => w, _ => ws_nl(w, nl) }
}
pub open spec fn rep(c: char, n: nat) -> Seq<char> { Seq::new(n, |i: int| c) }
pub proof fn lemma_ws(w: WS, a: Seq<char>, b: Seq<char>)
    ensures ws_str(ws_str(w, a), b) == ws_str(w, a + b), ws_str(w, seq![]) == w
{
    match w {
        WS::Chars(c) => { assert(c + a + b =~= c + (a + b)); assert(c + seq![] =~= c); }
        WS::Lines(l, c) => { assert(c + a + b =~= c + (a + b)); assert(c + seq![] =~= c); }
        WS::Bytes(c) => {
            let e = Seq::<char>::empty();
            encode_utf8_concat(a, b); encode_utf8_concat(e, e);
            assert(e + e =~= e); assert(encode_utf8(e) =~= seq![]);
            assert(c + encode_utf8(a) + encode_utf8(b) =~= c + (encode_utf8(a) + encode_utf8(b))); assert(c + seq![] =~= c);
        }
    }
}
pub proof fn lemma_rep(c: char, a: nat, b: nat) ensures rep(c, a) + rep(c, b) == rep(c, a + b), rep(c, 0) == Seq::<char>::empty() {
    assert(rep(c, a) + rep(c, b) =~= rep(c, a + b)); assert(rep(c, 0) =~= Seq::<char>::empty());
}

@type fmt::config::Indentation derive Clone,Copy
@type fmt::config::Config

/// core::fmt::Write and the crate's own Write, as one trait (see DESIGN.md)
pub trait Write {
    spec fn st(&self) -> WS;
    /// what the thing borrowed inside will finally hold
    #[verifier::prophetic]
    spec fn fin(&self) -> WS;
    /// the sink accepts everything from now on
    spec fn ok(&self) -> bool;
    fn write_str(&mut self, s: &str) -> (r: FResult<()>)
        ensures r is Ok ==> final(self).st() == ws_str(old(self).st(), s@),
            final(self).fin() == old(self).fin(), old(self).ok() ==> r is Ok && final(self).ok();
    fn write_line(&mut self, config: &Config) -> (r: FResult<()>)
        ensures r is Ok ==> final(self).st() == ws_nl(old(self).st(), config.newline@),
            final(self).fin() == old(self).fin(), old(self).ok() ==> r is Ok && final(self).ok();
    fn write_trailing_line(&mut self, config: &Config) -> (r: FResult<()>)
        ensures r is Ok ==> final(self).st() == ws_end(old(self).st(), config.newline@),
            final(self).fin() == old(self).fin(), old(self).ok() ==> r is Ok && final(self).ok();
}
/// rustc: borrowing a concrete sink as a trait object keeps it the same sink
#[verifier::external_body]
pub fn as_dyn<'x, W: Write>(w: &'x mut W) -> (r: &'x mut (dyn Write + 'x))
    ensures r.st() == old(w).st(), final(w).st() == final(r).st(), r.fin() == old(w).fin(), final(w).fin() == final(r).fin(), r.ok() == old(w).ok()
{ w }

@type fmt::formatter::Whitespace derive Clone,Copy
@type fmt::formatter::Formatter

/// settings of a formatter
pub struct Cfg { pub ind: Indentation, pub nl: Seq<char> }
/// state of a formatter: the sink, and the whitespace still to be written
pub struct FS { pub w: WS, pub line: Whitespace, pub spaces: int, pub indent: int }
pub open spec fn brks(l: Whitespace) -> nat { match l { Whitespace::Push => 1, Whitespace::Line => 2, _ => 0 } }
pub open spec fn lvl(f: FS) -> nat { if f.indent > 0 { f.indent as nat } else { 0 } }
pub open spec fn pad_tabs(c: Cfg, f: FS) -> nat {
    if !(f.line is None) && c.ind is Tab { lvl(f) } else { 0 }
}
pub open spec fn pad_spaces(c: Cfg, f: FS) -> nat {
    (f.spaces + if !(f.line is None) && c.ind is Space { lvl(f) * c.ind->Space_0 } else { 0 }) as nat
}
/// the indentation and spaces in front of the next text
pub open spec fn pad(c: Cfg, f: FS) -> Seq<char> { rep('\t', pad_tabs(c, f)) + rep(' ', pad_spaces(c, f)) }
pub open spec fn flushed(c: Cfg, f: FS) -> FS {
    FS { w: ws_str(ws_nls(f.w, c.nl, brks(f.line)), pad(c, f)), line: Whitespace::None, spaces: 0, indent: f.indent }
}
/// writing text: pending whitespace first; empty text writes nothing
pub open spec fn emit(c: Cfg, f: FS, s: Seq<char>) -> FS {
    if s.len() == 0 { f } else { let g = flushed(c, f); FS { w: ws_str(g.w, s), line: g.line, spaces: g.spaces, indent: g.indent } }
}
pub open spec fn do_push(f: FS) -> FS {
    FS { line: if f.line is Initial || f.line is Line { f.line } else { Whitespace::Push }, spaces: 0, ..f }
}
pub open spec fn do_line(f: FS) -> FS {
    FS { line: if f.line is Initial { f.line } else { Whitespace::Line }, spaces: 0, ..f }
}
pub open spec fn do_space(f: FS) -> FS { FS { spaces: f.spaces + 1, ..f } }
pub open spec fn do_indent(f: FS, n: int) -> FS { let g = do_push(f); FS { indent: g.indent + n, ..g } }
pub open spec fn fresh(w: WS) -> FS { FS { w, line: Whitespace::Initial, spaces: 0, indent: 0 } }

pub proof fn lemma_emit(c: Cfg, f: FS, a: Seq<char>, b: Seq<char>)
    ensures emit(c, emit(c, f, a), b) == emit(c, f, a + b),
{
    let g = flushed(c, f);
    lemma_ws(g.w, a, b); lemma_ws(g.w, a, seq![]); lemma_rep(' ', 0, 0); lemma_rep('\t', 0, 0);
    if a.len() == 0 { assert(a + b =~= b); }
    else if b.len() == 0 { assert(a + b =~= a); }
    else {
        let h = emit(c, f, a);
        lemma_ws(h.w, seq![], b);
        assert(pad(c, h) =~= seq![]);
        assert(ws_nls(h.w, c.nl, 0) == h.w);
    }
}
pub const MAXN: usize = 0xffff_ffff;
impl<'a> Formatter<'a> {
    pub open spec fn fs(&self) -> FS { FS { w: self.write.st(), line: self.line, spaces: self.spaces as int, indent: self.indent as int } }
    pub open spec fn cfg(&self) -> Cfg { Cfg { ind: self.config.indentation, nl: self.config.newline@ } }
    /// sizes within which no counter overflows
    pub open spec fn wf(&self) -> bool { self.spaces <= MAXN && (self.config.indentation is Space ==> self.config.indentation->Space_0 <= MAXN) }
}
/// b is the same formatter as a, at a later moment
#[verifier::prophetic]
pub open spec fn later(a: Formatter<'_>, b: Formatter<'_>) -> bool {
    &&& b.config == a.config
    &&& b.write.fin() == a.write.fin()
    &&& final(b.write).st() == final(a.write).st()
    &&& final(b.write).fin() == final(a.write).fin()
    &&& (a.write.ok() ==> b.write.ok())
    &&& b.wf()
}
/// the call wrote the text s (through the pending whitespace), or failed because the sink did
#[verifier::prophetic]
pub open spec fn wrote(a: Formatter<'_>, b: Formatter<'_>, r: FResult<()>, s: Seq<char>) -> bool {
    &&& later(a, b)
    &&& (r is Ok ==> b.fs() == emit(a.cfg(), a.fs(), s))
    &&& (a.write.ok() ==> r is Ok)
    &&& b.spaces <= a.spaces && b.indent == a.indent
}
