#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::std_specs::iter::*;
verus! {
global size_of usize == 8;
@include std_model.vrs
@include items.vrs
@include fmt_core.vrs
@include lang_fmt.vrs
@include fmt_run.vrs
@include fmt_tree.vrs
broadcast use {stdm::axiom_into_seq_option, stdm::axiom_into_iter};

@const fmt::formatter::SPACES uniform space
@const fmt::formatter::TABS uniform '\t'
/// core: the first n characters of ASCII text
#[verifier::external_body]
pub fn str_prefix(s: &str, n: usize) -> (r: &str)
    requires is_ascii_chars(s@), n <= s@.len(), ensures r@ == s@.take(n as int)
{ &s[0..n] }
/// core: the length in bytes of ASCII text
#[verifier::external_body]
pub fn str_len(s: &str) -> (r: usize)
    requires is_ascii_chars(s@), ensures r == s@.len()
{ s.len() }

impl Whitespace {
@fn fmt::formatter|Whitespace||into_indent -> r
    ensures r == (match self { Whitespace::None => None::<usize>, _ => Some(brks(self) as usize) }),
@done
}
impl Default for Whitespace {
@fn fmt::formatter|Whitespace|Default|default -> r nopub
    ensures r == Whitespace::None,
@done
}

/// smallvec: a SmallVec is the same sequence as a Vec
pub trait SmArr { type I; }
impl<T, const N: usize> SmArr for [T; N] { type I = T; }
pub type SmallVec<A> = Vec<<A as SmArr>::I>;

// ---- sinks ----
/// core::fmt::Write
pub trait CoreFmtWrite {
    spec fn st(&self) -> WS;
    #[verifier::prophetic]
    spec fn fin(&self) -> WS;
    spec fn ok(&self) -> bool;
    /// such a sink is text, not a list of lines
    proof fn lemma_kind(&self) ensures !(self.st() is Lines);
    fn write_str(&mut self, s: &str) -> (r: FResult<()>)
        ensures r is Ok ==> final(self).st() == ws_str(old(self).st(), s@),
            final(self).fin() == old(self).fin(), old(self).ok() ==> r is Ok && final(self).ok();
    fn write_char(&mut self, c: char) -> (r: FResult<()>)
        ensures r is Ok ==> final(self).st() == ws_str(old(self).st(), seq![c]),
            final(self).fin() == old(self).fin(), old(self).ok() ==> r is Ok && final(self).ok();
}
/// alloc: writing to a String appends and cannot fail
impl CoreFmtWrite for String {
    open spec fn st(&self) -> WS { WS::Chars(self@) }
    #[verifier::prophetic]
    open spec fn fin(&self) -> WS { WS::Chars(Seq::empty()) }
    open spec fn ok(&self) -> bool { true }
    proof fn lemma_kind(&self) {}
    #[verifier::external_body]
    fn write_str(&mut self, s: &str) -> (r: FResult<()>) { self.push_str(s); Ok(()) }
    #[verifier::external_body]
    fn write_char(&mut self, c: char) -> (r: FResult<()>) { self.push(c); Ok(()) }
}
/// core: writing through a reference writes to the thing referred to
impl<'x> CoreFmtWrite for &'x mut String {
    open spec fn st(&self) -> WS { WS::Chars((*self)@) }
    #[verifier::prophetic]
    open spec fn fin(&self) -> WS { WS::Chars(final(*self)@) }
    open spec fn ok(&self) -> bool { true }
    proof fn lemma_kind(&self) {}
    #[verifier::external_body]
    fn write_str(&mut self, s: &str) -> (r: FResult<()>) { self.push_str(s); Ok(()) }
    #[verifier::external_body]
    fn write_char(&mut self, c: char) -> (r: FResult<()>) { self.push(c); Ok(()) }
}
@type fmt::fmt_writer::FmtWriter
impl<W: CoreFmtWrite> Write for FmtWriter<W> {
    open spec fn st(&self) -> WS { self.writer.st() }
    #[verifier::prophetic]
    open spec fn fin(&self) -> WS { self.writer.fin() }
    open spec fn ok(&self) -> bool { self.writer.ok() }
@fn fmt::fmt_writer|FmtWriter<W>|Write|write_str -> r nopub
@done
@fn fmt::fmt_writer|FmtWriter<W>|Write|write_line -> r nopub
@start
    proof { self.writer.lemma_kind(); }
@done
@fn fmt::fmt_writer|FmtWriter<W>|Write|write_trailing_line -> r nopub
@fallback fmt||trait Write|write_trailing_line
@subst Result => FResult
@start
    proof { self.writer.lemma_kind(); }
@done
}
impl<W: CoreFmtWrite> FmtWriter<W> {
@fn fmt::fmt_writer|FmtWriter<W>|Write|write_char -> r as sink_write_char
    ensures r is Ok ==> final(self).st() == ws_str(old(self).st(), seq![c]),
        final(self).fin() == old(self).fin(), old(self).ok() ==> r is Ok && final(self).ok(),
@done
@fn fmt::fmt_writer|FmtWriter<W>||new -> r
    ensures r.writer == writer,
@done
@fn fmt::fmt_writer|FmtWriter<W>||into_inner -> r
    ensures r == self.writer,
@done
@fn fmt::fmt_writer|FmtWriter<W>||as_formatter -> r
    ensures r.fs() == fresh(old(self).st()), r.config == config,
        final(self).st() == final(r.write).st(), final(self).fin() == final(r.write).fin(),
        r.write.fin() == old(self).fin(), r.write.ok() == old(self).ok(),
@subst Formatter:: new(self, => Formatter::new(as_dyn(self),
@done
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
/// std::io::Write
pub trait IoWrite {
    spec fn st(&self) -> Seq<u8>;
    #[verifier::prophetic]
    spec fn fin(&self) -> Seq<u8>;
    spec fn ok(&self) -> bool;
    fn write_all(&mut self, b: &[u8]) -> (r: Result<(), std::io::Error>)
        ensures r is Ok ==> final(self).st() == old(self).st() + b@,
            final(self).fin() == old(self).fin(), old(self).ok() ==> r is Ok && final(self).ok();
}
@type fmt::io_writer::IoWriter
impl<W: IoWrite> Write for IoWriter<W> {
    open spec fn st(&self) -> WS { WS::Bytes(self.writer.st()) }
    #[verifier::prophetic]
    open spec fn fin(&self) -> WS { WS::Bytes(self.writer.fin()) }
    open spec fn ok(&self) -> bool { self.writer.ok() }
@fn fmt::io_writer|IoWriter<W>|Write|write_str -> r nopub
@done
@fn fmt::io_writer|IoWriter<W>|Write|write_line -> r nopub
@done
@fn fmt::io_writer|IoWriter<W>|Write|write_trailing_line -> r nopub
@fallback fmt||trait Write|write_trailing_line
@subst Result => FResult
@done
}
/// core: a character as a text of its own (char::encode_utf8)
#[verifier::external_body]
pub fn xt_char_str(c: char) -> (r: &'static str) ensures r@ == seq![c] { unimplemented!() }
impl<W: IoWrite> IoWriter<W> {
@fn fmt::io_writer|IoWriter<W>|Write|write_char -> r as sink_write_char
    ensures r is Ok ==> final(self).st() == ws_str(old(self).st(), seq![c]),
        final(self).fin() == old(self).fin(), old(self).ok() ==> r is Ok && final(self).ok(),
@done
@fn fmt::io_writer|IoWriter<W>||new -> r
    ensures r.writer == writer,
@done
@fn fmt::io_writer|IoWriter<W>||into_inner -> r
    ensures r == self.writer,
@done
@fn fmt::io_writer|IoWriter<W>||as_formatter -> r
    ensures r.fs() == fresh(old(self).st()), r.config == config,
        final(self).st() == final(r.write).st(), final(self).fin() == final(r.write).fin(),
        r.write.fin() == old(self).fin(), r.write.ok() == old(self).ok(),
@subst Formatter:: new(self, => Formatter::new(as_dyn(self),
@done
}
@type fmt::vec_writer::VecWriter
pub open spec fn lines_of(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
impl Write for VecWriter {
    open spec fn st(&self) -> WS { WS::Lines(lines_of(self.target@), self.line_buffer@) }
    #[verifier::prophetic]
    open spec fn fin(&self) -> WS { WS::Chars(Seq::empty()) }
    open spec fn ok(&self) -> bool { true }
@fn fmt::vec_writer|VecWriter|Write|write_str -> r nopub
@done
@fn fmt::vec_writer|VecWriter|Write|write_line -> r nopub
@end
    proof {
        assert(lines_of(self.target@) =~= lines_of(old(self).target@).push(old(self).line_buffer@));
        assert(self.line_buffer@ =~= Seq::<char>::empty());
    }
@done
@fn fmt::vec_writer|VecWriter|Write|write_trailing_line -> r nopub
@fallback fmt||trait Write|write_trailing_line
@subst Result => FResult
@done
}
impl Default for VecWriter {
@fn fmt::vec_writer|VecWriter|Default|default -> r nopub
    ensures r.target@.len() == 0, r.line_buffer@.len() == 0,
@done
}
impl VecWriter {
@fn fmt::vec_writer|VecWriter|Write|write_char -> r as sink_write_char
    ensures r is Ok ==> final(self).st() == ws_str(old(self).st(), seq![c]),
        final(self).fin() == old(self).fin(), old(self).ok() ==> r is Ok && final(self).ok(),
@done
@fn fmt::vec_writer|VecWriter||new -> r
    ensures r.st() == WS::Lines(Seq::empty(), Seq::empty()),
@end
    proof { assert(lines_of(xt_ret.target@) =~= Seq::<Seq<char>>::empty()); assert(xt_ret.line_buffer@ =~= Seq::<char>::empty()); }
@done
@fn fmt::vec_writer|VecWriter||into_vec -> r
    ensures WS::Lines(lines_of(r@.drop_last()), r@.last()@) == self.st(), r@.len() > 0,
@end
    proof { assert(xt_ret@.drop_last() =~= self.target@); }
@done
@fn fmt::vec_writer|VecWriter||as_formatter -> r
    ensures r.fs() == fresh(old(self).st()), r.config == config,
        final(self).st() == final(r.write).st(), final(self).fin() == final(r.write).fin(),
        r.write.fin() == old(self).fin(), r.write.ok() == old(self).ok(),
@subst Formatter:: new(self, => Formatter::new(as_dyn(self),
@done
}

impl<'a> Formatter<'a> {
@fn fmt::formatter|Formatter||new -> r
    ensures r.fs() == fresh(old(write).st()), r.config == config,
        final(write).st() == final(r.write).st(), final(write).fin() == final(r.write).fin(),
        r.write.fin() == old(write).fin(), r.write.ok() == old(write).ok(),
@done

@fn fmt::formatter|Formatter||write_trailing_line -> r
    requires old(self).wf(),
    ensures later(*old(self), *final(self)), old(self).write.ok() ==> r is Ok,
        r is Ok ==> final(self).fs() == (FS { w: ws_end(old(self).fs().w, old(self).cfg().nl), line: Whitespace::None, spaces: 0, indent: old(self).fs().indent }),
@done

@fn fmt::formatter|Formatter||write_str -> r
    requires old(self).wf(),
    ensures wrote(*old(self), *final(self), r, s@),
@done

@fn fmt::formatter|Formatter||push
    requires old(self).wf(),
    ensures later(*old(self), *final(self)), final(self).fs() == do_push(old(self).fs()),
@done
@fn fmt::formatter|Formatter||line
    requires old(self).wf(),
    ensures later(*old(self), *final(self)), final(self).fs() == do_line(old(self).fs()),
@done
@fn fmt::formatter|Formatter||space
    requires old(self).wf(), old(self).spaces < MAXN,
    ensures later(*old(self), *final(self)), final(self).fs() == do_space(old(self).fs()),
@done
@fn fmt::formatter|Formatter||indentation
    requires old(self).wf(), i16::MIN <= old(self).indent + n <= i16::MAX,
    ensures later(*old(self), *final(self)), final(self).fs() == do_indent(old(self).fs(), n as int),
@done

@fn fmt::formatter|Formatter|Write|write_str -> r as core_write_str
    requires old(self).wf(),
    ensures wrote(*old(self), *final(self), r, s@),
@done

@fn fmt::formatter|Formatter||format_items -> r
    requires old(self).wf(), room(old(self).spaces as int, old(self).indent as int, items@),
    ensures
        later(*old(self), *final(self)),
        r is Ok ==> render::<L>(old(self).cfg(), config, format, old(self).fs(), items@) == Some(final(self).fs()),
        render::<L>(old(self).cfg(), config, format, old(self).fs(), items@) is Some && old(self).write.ok() ==> r is Ok,
@done

@fn fmt::formatter|Formatter||flush_whitespace -> r
    requires old(self).wf(),
    ensures later(*old(self), *final(self)), r is Ok ==> final(self).fs() == flushed(old(self).cfg(), old(self).fs()),
        old(self).write.ok() ==> r is Ok,
        final(self).spaces <= old(self).spaces, final(self).indent == old(self).indent,
@subst TABS. len() => str_len(TABS)
@subst SPACES. len() => str_len(SPACES)
@subst & TABS[0.. len] => str_prefix(TABS, len)
@subst & SPACES[0.. len] => str_prefix(SPACES, len)
@start
    let ghost c = self.cfg(); let ghost f = self.fs();
    let ghost w1 = ws_nls(f.w, c.nl, brks(f.line));
    let ghost w2 = ws_str(w1, rep('\t', pad_tabs(c, f)));
    proof {
        lemma_ws(w1, seq![], seq![]); lemma_ws(w2, seq![], seq![]); lemma_ws(w1, rep('\t', pad_tabs(c, f)), rep(' ', pad_spaces(c, f)));
        lemma_rep(' ', 0, 0); lemma_rep('\t', 0, 0);
        lemma_TABS(); lemma_SPACES();
        if c.ind is Space {
            assert(lvl(f) * c.ind->Space_0 <= 32767 * MAXN) by (nonlinear_arith) requires lvl(f) <= 32767, c.ind->Space_0 <= MAXN;
        }
    }
@loop 0 for _ in 0..lines
    invariant later(*old(self), *self), old(self).wf(), self.spaces == 0, self.line is None, self.indent == old(self).indent,
        lines == brks(old(self).line), spaces == old(self).spaces, c == old(self).cfg(), f == old(self).fs(),
        self.write.st() == ws_nls(f.w, c.nl, it0.index() as nat),
@loop 1 while tabs>0
    invariant later(*old(self), *self), self.spaces == 0, self.line is None, self.indent == old(self).indent,
        tabs <= level, level == lvl(f), spaces == old(self).spaces, c == old(self).cfg(), f == old(self).fs(),
        self.write.st() == ws_str(w1, rep('\t', (level - tabs) as nat)),
    decreases tabs,
@lstart 1
    let ghost t0 = tabs;
    proof { lemma_TABS(); }
@lend 1
    proof {
        assert(TABS_s().take((t0 - tabs) as int) =~= rep('\t', (t0 - tabs) as nat));
        lemma_rep('\t', (level - t0) as nat, (t0 - tabs) as nat);
        lemma_ws(w1, rep('\t', (level - t0) as nat), rep('\t', (t0 - tabs) as nat));
    }
@loop 2 while spaces>0
    invariant later(*old(self), *self), self.spaces == 0, self.line is None, self.indent == old(self).indent,
        spaces <= pad_spaces(c, f), c == old(self).cfg(), f == old(self).fs(),
        self.write.st() == ws_str(w2, rep(' ', (pad_spaces(c, f) - spaces) as nat)),
    decreases spaces,
@lstart 2
    let ghost t0 = spaces;
    proof { lemma_SPACES(); }
@lend 2
    proof {
        assert(SPACES_s().take((t0 - spaces) as int) =~= rep(' ', (t0 - spaces) as nat));
        lemma_rep(' ', (pad_spaces(c, f) - t0) as nat, (t0 - spaces) as nat);
        lemma_ws(w2, rep(' ', (pad_spaces(c, f) - t0) as nat), rep(' ', (t0 - spaces) as nat));
    }
@done

@fn fmt::formatter|Formatter||format_cursor -> r
    requires old(self).wf(), room(old(self).spaces as int, old(self).indent as int, old(cursor).items@),
    ensures
        later(*old(self), *final(self)),
        r is Ok ==> run::<L>(old(self).cfg(), config, format, old(self).fs(), old(cursor).items@, seq![frame0()], end_on_close_quote)
            == Some((final(self).fs(), final(cursor).items@)),
        run::<L>(old(self).cfg(), config, format, old(self).fs(), old(cursor).items@, seq![frame0()], end_on_close_quote) is Some
            && old(self).write.ok() ==> r is Ok,
    decreases old(cursor).items@.len(), 0int,
@subst lang.format(self, config, format) => L::item_format(&**lang, self, config, format)
@start
    let ghost mut s0 = cursor.items@; let ghost mut st0 = seq![frame0()]; let ghost mut f0 = self.fs();
    let ghost c = self.cfg();
@loop 0
    invariant
        later(*old(self), *self), self.wf(), room(self.spaces as int, self.indent as int, cursor.items@), buf@ == Seq::<char>::empty(),
        st_ok(stack@), cursor.items@ == s0, stack@ == st0, self.fs() == f0, c == old(self).cfg(),
        cursor.items@.len() <= old(cursor).items@.len(),
        run::<L>(c, config, format, old(self).fs(), old(cursor).items@, seq![frame0()], end_on_close_quote)
            == run::<L>(c, config, format, f0, s0, st0, end_on_close_quote),
    ensures cursor.items@.len() == 0,
    decreases cursor.items@.len(),
@lstart 0
    proof {
        let t = s0.skip(1);
        lemma_sum_abs(s0, 1); lemma_sum_abs(t, 0);
        if t.len() >= 1 { lemma_sum_abs(t, 1); if t.len() >= 2 { lemma_sum_abs(t.skip(1), 1); } }
        if s0[0] is OpenQuote {
            lemma_run::<L>(c, config, format, emit(c, fresh(WS::Chars(Seq::empty())), L::s_open(config, format, false)), t, seq![frame0()], true);
        }
    }
@lend 0
    proof {
        assert(top(st0, st0.last()) =~= st0);
        if stack@.len() == st0.len() { assert(stack@ =~= top(st0, stack@.last())); }
        else if stack@.len() > st0.len() { assert(stack@ =~= st0.push(stack@.last())); }
        else { assert(stack@ =~= st0.drop_last()); }
        if s0[0] is Push { assert(stack@ =~= st0); }
        if s0[0] is CloseEval { assert(stack@ =~= st0.drop_last()); }
        if s0[0] is CloseQuote { assert(stack@ =~= top(st0, Frame { in_quote: false, has_eval: false, ..st0.last() })); }
        if s0[0] is OpenQuote && !st0.last().in_quote { assert(stack@ =~= top(st0, Frame { in_quote: true, has_eval: s0[0]->OpenQuote_0, ..st0.last() })); }
        let rr = run::<L>(c, config, format, self.fs(), cursor.items@, stack@, end_on_close_quote); let r0 = run::<L>(c, config, format, f0, s0, st0, end_on_close_quote);
        if s0[0] is Push { assert(r0 == rr); }
        if s0[0] is Literal { assert(r0 == rr); }
        if s0[0] is CloseEval { assert(r0 == rr); }
        if s0[0] is CloseQuote { assert(r0 == rr); }
        if s0[0] is OpenQuote { assert(r0 == rr); }
        if s0[0] is OpenEval { assert(r0 == rr); }
        if s0[0] is Indentation { assert(r0 == rr); }
        if s0[0] is Register { assert(r0 == rr); }
        if s0[0] is Lang { assert(r0 == rr); }
        assert(run::<L>(c, config, format, f0, s0, st0, end_on_close_quote) == run::<L>(c, config, format, self.fs(), cursor.items@, stack@, end_on_close_quote));
        s0 = cursor.items@; st0 = stack@; f0 = self.fs();
    }
@arm
    let _t1 = &mut *in_quote; let _t2 = &mut *has_eval; let _t3 = &mut *end_on_eval; let _t4 = &mut *self;
@done

@fn fmt::formatter|Formatter||quoted_quote -> r
    requires old(self).wf(), room(0, 0, old(cursor).items@), old(buf)@.len() == 0,
    ensures *final(self) == *old(self),
        r is Ok ==> nested_quote::<L>(old(self).cfg(), config, format, old(cursor).items@) == Some((final(buf)@, final(cursor).items@)),
        nested_quote::<L>(old(self).cfg(), config, format, old(cursor).items@) is Some ==> r is Ok,
    decreases old(cursor).items@.len(), 1int,
@subst & mut w => as_dyn(&mut w)
@done
}
impl Config {
@fn fmt::config|Config||from_lang -> r
    ensures call_ensures(L::default_indentation, (), r.indentation), r.newline@ == seq!['\n'],
@start
    proof { reveal_strlit("\n"); }
@done
@fn fmt::config|Config||with_indentation -> r
    ensures r == (Config { indentation, ..self }),
@done
@fn fmt::config|Config||with_newline -> r
    ensures r == (Config { newline, ..self }),
@done
}
impl<L: Lang> Tokens<L> {
@fn tokens::tokens|Tokens<L>||format -> r
    requires old(out).wf(), room(old(out).spaces as int, old(out).indent as int, self.items@),
    ensures
        later(*old(out), *final(out)),
        r is Ok ==> render::<L>(old(out).cfg(), config, format, old(out).fs(), self.items@) == Some(final(out).fs()),
        render::<L>(old(out).cfg(), config, format, old(out).fs(), self.items@) is Some && old(out).write.ok() ==> r is Ok,
@done
@fn tokens::tokens|Tokens<L>||to_string -> r
    requires room(0, 0, self.items@),
    ensures exists|ind: Indentation, lc: L::Config, lf: L::Format| #![auto] call_ensures(L::default_indentation, (), ind) && call_ensures(L::Config::default, (), lc) && call_ensures(L::Format::default, (), lf)
        && match render::<L>(Cfg { ind, nl: seq!['\n'] }, &lc, &lf, fresh(WS::Chars(Seq::empty())), self.items@) {
            Some(f) => r is Ok && WS::Chars(r->Ok_0@) == f.w,
            None => r is Err,
        },
@done
@fn tokens::tokens|Tokens<L>||to_vec -> r
    requires room(0, 0, self.items@),
    ensures exists|ind: Indentation, lc: L::Config, lf: L::Format| #![auto] call_ensures(L::default_indentation, (), ind) && call_ensures(L::Config::default, (), lc) && call_ensures(L::Format::default, (), lf)
        && match render::<L>(Cfg { ind, nl: seq!['\n'] }, &lc, &lf, fresh(WS::Lines(Seq::empty(), Seq::empty())), self.items@) {
            Some(f) => r is Ok && r->Ok_0@.len() > 0 && WS::Lines(lines_of(r->Ok_0@.drop_last()), r->Ok_0@.last()@) == f.w,
            None => r is Err,
        },
@done
}
impl<L: LangFile> Tokens<L> {
@fn tokens::tokens|Tokens<L>||format_file -> r
    requires old(out).wf(), room(old(out).spaces as int, old(out).indent as int, self.items@),
    ensures
        later(*old(out), *final(out)),
        r is Ok ==> file_end(old(out).cfg(), L::s_file(old(out).cfg(), config, old(out).fs(), self.items@)) == Some(final(out).fs()),
        L::s_file(old(out).cfg(), config, old(out).fs(), self.items@) is Some && old(out).write.ok() ==> r is Ok,
@done
@fn tokens::tokens|Tokens<L>||to_file_string -> r
    requires room(0, 0, self.items@),
    ensures exists|ind: Indentation, lc: L::Config| #![auto] call_ensures(L::default_indentation, (), ind) && call_ensures(L::Config::default, (), lc)
        && match L::s_file(Cfg { ind, nl: seq!['\n'] }, &lc, fresh(WS::Chars(Seq::empty())), self.items@) {
            Some(f) => r is Ok && WS::Chars(r->Ok_0@) == ws_end(f.w, seq!['\n']),
            None => r is Err,
        },
@done
@fn tokens::tokens|Tokens<L>||to_file_vec -> r
    requires room(0, 0, self.items@),
    ensures exists|ind: Indentation, lc: L::Config| #![auto] call_ensures(L::default_indentation, (), ind) && call_ensures(L::Config::default, (), lc)
        && match L::s_file(Cfg { ind, nl: seq!['\n'] }, &lc, fresh(WS::Lines(Seq::empty(), Seq::empty())), self.items@) {
            Some(f) => r is Ok && r->Ok_0@.len() > 0 && WS::Lines(lines_of(r->Ok_0@.drop_last()), r->Ok_0@.last()@) == ws_end(f.w, seq!['\n']),
            None => r is Err,
        },
@done
}
// ---- what a language does that says nothing else (the provided functions of crate::lang::Lang) ----
pub mod plain {
use super::*;
impl<'a> Formatter<'a> {
    /// core: Write::write_char passes the character to write_str
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: FResult)
        requires old(self).wf(), ensures wrote(*old(self), *final(self), r, seq![c])
    { unimplemented!() }
}
@fn lang||trait Lang|format_file -> r as plain_format_file
@sig pub fn plain_format_file<L: Lang>(tokens: &Tokens<L>, out: &mut Formatter<'_>, config: &L::Config) -> (r: FResult)
    requires old(out).wf(), room(old(out).spaces as int, old(out).indent as int, tokens.items@),
    ensures
        later(*old(out), *final(out)),
        exists|lf: L::Format| #[trigger] call_ensures(L::Format::default, (), lf)
            && (r is Ok ==> render::<L>(old(out).cfg(), config, &lf, old(out).fs(), tokens.items@) == Some(final(out).fs()))
            && (render::<L>(old(out).cfg(), config, &lf, old(out).fs(), tokens.items@) is Some && old(out).write.ok() ==> r is Ok),
@subst Self:: Format => L:: Format
@done
@fn lang||trait Lang|write_quoted -> r as plain_write_quoted
@sig pub fn plain_write_quoted(out: &mut Formatter<'_>, input: &str) -> (r: FResult)
    requires old(out).wf(),
    ensures wrote(*old(out), *final(out), r, input@),
@done
@fn lang||trait Lang|open_quote -> r as plain_open_quote
@sig pub fn plain_open_quote<L: Lang>(out: &mut Formatter<'_>, _config: &L::Config, _format: &L::Format, _has_eval: bool) -> (r: FResult)
    requires old(out).wf(),
    ensures wrote(*old(out), *final(out), r, seq!['"']),
@done
@fn lang||trait Lang|close_quote -> r as plain_close_quote
@sig pub fn plain_close_quote<L: Lang>(out: &mut Formatter<'_>, _config: &L::Config, _format: &L::Format, _has_eval: bool) -> (r: FResult)
    requires old(out).wf(),
    ensures wrote(*old(out), *final(out), r, seq!['"']),
@done
@fn lang||trait Lang|start_string_eval -> r as plain_start_string_eval
@sig pub fn plain_start_string_eval<L: Lang>(_out: &mut Formatter<'_>, _config: &L::Config, _format: &L::Format) -> (r: FResult)
    ensures *final(_out) == *old(_out), r is Ok,
@done
@fn lang||trait Lang|end_string_eval -> r as plain_end_string_eval
@sig pub fn plain_end_string_eval<L: Lang>(_out: &mut Formatter<'_>, _config: &L::Config, _format: &L::Format) -> (r: FResult)
    ensures *final(_out) == *old(_out), r is Ok,
@done
}
fn main() {}
}
