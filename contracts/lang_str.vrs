/// the part of crate::lang::Lang that strings are made of, with what each hook writes
pub trait LangStr: Sized {
    type Config: Default;
    type Format: Default;
    spec fn s_open(config: &Self::Config, format: &Self::Format, e: bool) -> Seq<char>;
    spec fn s_close(config: &Self::Config, format: &Self::Format, e: bool) -> Seq<char>;
    spec fn s_quoted(s: Seq<char>) -> Seq<char>;
    spec fn s_eval_lit(config: &Self::Config, format: &Self::Format, s: Seq<char>) -> Seq<char>;
    spec fn s_start_eval(config: &Self::Config, format: &Self::Format) -> Seq<char>;
    spec fn s_end_eval(config: &Self::Config, format: &Self::Format) -> Seq<char>;
    fn open_quote(out: &mut Formatter<'_>, config: &Self::Config, format: &Self::Format, has_eval: bool) -> (r: FResult)
        requires old(out).wf(), ensures wrote(*old(out), *final(out), r, Self::s_open(config, format, has_eval));
    fn close_quote(out: &mut Formatter<'_>, config: &Self::Config, format: &Self::Format, has_eval: bool) -> (r: FResult)
        requires old(out).wf(), ensures wrote(*old(out), *final(out), r, Self::s_close(config, format, has_eval));
    fn string_eval_literal(out: &mut Formatter<'_>, config: &Self::Config, format: &Self::Format, literal: &str) -> (r: FResult)
        requires old(out).wf(), ensures wrote(*old(out), *final(out), r, Self::s_eval_lit(config, format, literal@));
    fn start_string_eval(out: &mut Formatter<'_>, config: &Self::Config, format: &Self::Format) -> (r: FResult)
        requires old(out).wf(), ensures wrote(*old(out), *final(out), r, Self::s_start_eval(config, format));
    fn end_string_eval(out: &mut Formatter<'_>, config: &Self::Config, format: &Self::Format) -> (r: FResult)
        requires old(out).wf(), ensures wrote(*old(out), *final(out), r, Self::s_end_eval(config, format));
    fn write_quoted(out: &mut Formatter<'_>, input: &str) -> (r: FResult)
        requires old(out).wf(), ensures wrote(*old(out), *final(out), r, Self::s_quoted(input@));
}
