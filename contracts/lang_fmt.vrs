@include lang_str.vrs
/// crate::lang::Lang, with what each hook of a language writes
pub trait Lang: LangStr {
    type Item;
    fn default_indentation() -> (r: Indentation)
        ensures r is Space ==> r->Space_0 <= MAXN;
    spec fn s_item(item: &Self::Item, config: &Self::Config, format: &Self::Format) -> Seq<char>;
    /// LangItem::format of the language's items
    fn item_format(item: &Self::Item, out: &mut Formatter<'_>, config: &Self::Config, format: &Self::Format) -> (r: FResult)
        requires old(out).wf(), ensures wrote(*old(out), *final(out), r, Self::s_item(item, config, format));
}
@type tokens::tokens::Tokens
