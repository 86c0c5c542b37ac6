// ---- stream items ----
@type tokens::item_str::ItemStr
impl View for ItemStr {
    type V = Seq<char>;
    open spec fn view(&self) -> Seq<char> { match self { ItemStr::Box(b) => b@, ItemStr::Static(s) => s@ } }
}
@type tokens::item::Item
