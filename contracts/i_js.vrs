@include imp_core.vrs
@type lang::js::ImportKind derive Clone,Copy
@type lang::js::Module
@type lang::js::Import
@type lang::js::Config
@type lang::js::Format
pub type LangItem = Import;
pub type LangConfig = Config;
pub type LangFormat = Format;
pub struct JavaScript;
pub type N = Seq<char>;
// ---- crate relative-path ----
#[verifier::external_body]
pub struct RelativePathBuf { _x: () }
#[verifier::external_body]
pub struct RelativePath { _x: () }
impl RelativePathBuf { pub uninterp spec fn v(&self) -> N; }
/// the path from one to the other
pub uninterp spec fn relative(from: N, to: N) -> N;
impl RelativePath {
    pub uninterp spec fn v(&self) -> N;
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn relative(&self, p: &RelativePath) -> (r: RelativePathBuf) ensures r.v() == relative(self.v(), p.v()) { unimplemented!() }
}
impl core::ops::Deref for RelativePathBuf { type Target = RelativePath;
    #[verifier::external_body]
    fn deref(&self) -> (r: &RelativePath) ensures r.v() == self.v() { unimplemented!() }
}
// ---- what an import says ----
pub enum MK { P(N), G(N) }
impl Module { pub open spec fn k(&self) -> MK { match *self { Module::Path(p) => MK::P(p.v()), Module::Global(s) => MK::G(s.v()) } } }
impl Key for Module { type K = MK; open spec fn key(&self) -> MK { self.k() } }
pub enum Fact { Wild(MK, N), Def(MK, N), Plain(MK, N), As(MK, N, N) }
pub open spec fn fact(i: Import) -> Fact {
    match i.kind {
        ImportKind::Wildcard => Fact::Wild(i.module.k(), i.name.v()),
        ImportKind::Default => Fact::Def(i.module.k(), i.name.v()),
        ImportKind::Named => match i.alias { None => Fact::Plain(i.module.k(), i.name.v()), Some(a) => Fact::As(i.module.k(), i.name.v(), a.v()) },
    }
}
pub open spec fn mk(f: Fact) -> MK { match f { Fact::Wild(k, n) => k, Fact::Def(k, n) => k, Fact::Plain(k, n) => k, Fact::As(k, n, a) => k } }
/// what is imported from a module inside of the braces
pub enum El { P(N), A(N, N), D(N) }
pub struct RM { pub def: Option<N>, pub set: Set<El> }
/// the default clause: the first default import of the module
pub open spec fn def_of(w: Seq<Import>, m: MK) -> Option<N> decreases w.len() {
    if w.len() == 0 { None } else {
        let d = def_of(w.drop_last(), m);
        match fact(w.last()) { Fact::Def(k, n) => if d is None && k == m { Some(n) } else { d }, _ => d }
    }
}
pub open spec fn els_of(w: Seq<Import>, m: MK) -> Set<El> decreases w.len() {
    if w.len() == 0 { Set::empty() } else {
        let e = els_of(w.drop_last(), m);
        match fact(w.last()) {
            Fact::Plain(k, n) => if k == m { e.insert(El::P(n)) } else { e },
            Fact::As(k, n, a) => if k == m { e.insert(El::A(n, a)) } else { e },
            Fact::Def(k, n) => if k == m && def_of(w, m) != Some(n) { e.insert(El::D(n)) } else { e },
            Fact::Wild(k, n) => e,
        }
    }
}
pub open spec fn rm_of(w: Seq<Import>, m: MK) -> RM { RM { def: def_of(w, m), set: els_of(w, m) } }
pub open spec fn mods(w: Seq<Import>) -> Set<MK> decreases w.len() {
    if w.len() == 0 { Set::empty() } else { let s = mods(w.drop_last()); match fact(w.last()) { Fact::Wild(k, n) => s, Fact::Plain(k, n) => s.insert(k), Fact::As(k, n, a) => s.insert(k), Fact::Def(k, n) => s.insert(k) } }
}
pub open spec fn wilds(w: Seq<Import>) -> Set<(MK, N)> decreases w.len() {
    if w.len() == 0 { Set::empty() } else { let s = wilds(w.drop_last()); match fact(w.last()) { Fact::Wild(k, n) => s.insert((k, n)), _ => s } }
}
// ---- lines ----
pub open spec fn path(c: Config) -> Option<N> { match c.module_path { Some(p) => Some(p.v()), None => None } }
/// where a module is imported from, for a file at mp
pub open spec fn from(mp: Option<N>, m: MK) -> N { match m { MK::G(s) => s, MK::P(p) => match mp { None => p, Some(d) => relative(d, p) } } }
pub open spec fn from_tx(p: Seq<Tk>, mp: Option<N>, m: MK) -> Seq<Tk> { p + sp() + tx("from") + sp() + seq![Tk::Q(from(mp, m))] + tx(";") }
/// import * as name from ".."
pub open spec fn wild_tx(mp: Option<N>) -> spec_fn((MK, N)) -> Seq<Tk> { |k: (MK, N)| from_tx(tx("import") + sp() + tx("*") + sp() + tx("as") + sp() + chars(k.1), mp, k.0) }
pub open spec fn el_tx(p: Seq<Tk>, e: El) -> Seq<Tk> {
    match e { El::P(n) => p + chars(n), El::A(n, a) => p + chars(n) + sp() + tx("as") + sp() + chars(a), El::D(n) => p + tx("default") + sp() + tx("as") + sp() + chars(n) }
}
pub open spec fn sep(p: Seq<Tk>) -> Seq<Tk> { p + tx(",") + sp() }
pub open spec fn list_tx(p: Seq<Tk>, s: Seq<El>) -> Seq<Tk> decreases s.len() {
    if s.len() == 0 { p } else if s.len() == 1 { el_tx(p, s[0]) } else { el_tx(sep(list_tx(p, s.drop_last())), s.last()) }
}
/// name; name, { .. }; { .. }
pub open spec fn clause_tx(p: Seq<Tk>, x: RM) -> Seq<Tk> {
    let q = match x.def { Some(d) => p + chars(d), None => p };
    let s = order(x.set);
    if s.len() == 0 { q } else { list_tx((if x.def is Some { sep(q) } else { q }) + tx("{"), s) + tx("}") }
}
pub open spec fn mod_tx(w: Seq<Import>, mp: Option<N>) -> spec_fn(MK) -> Seq<Tk> { |m: MK| from_tx(clause_tx(tx("import") + sp(), rm_of(w, m)), mp, m) }
pub open spec fn head(w: Seq<Import>, mp: Option<N>) -> Seq<Seq<Tk>> { order(wilds(w)).map_values(wild_tx(mp)) + order(mods(w)).map_values(mod_tx(w, mp)) }
pub open spec fn named_ok(w: Seq<Import>) -> bool { forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).name.v().len() > 0 && (w[i].alias is Some ==> w[i].alias.unwrap().v().len() > 0) }
pub open spec fn el_ok(e: El) -> bool { match e { El::P(n) => n.len() > 0, El::A(n, a) => n.len() > 0 && a.len() > 0, El::D(n) => n.len() > 0 } }
/// no name is empty, and there is something for every module
pub proof fn lemma_ok(w: Seq<Import>)
    requires named_ok(w)
    ensures forall|k: (MK, N)| #[trigger] wilds(w).contains(k) ==> k.1.len() > 0, forall|m: MK| def_of(w, m) is Some ==> (#[trigger] def_of(w, m)).unwrap().len() > 0,
        forall|m: MK, e: El| (#[trigger] els_of(w, m)).contains(e) ==> #[trigger] el_ok(e),
        forall|m: MK| #[trigger] mods(w).contains(m) ==> def_of(w, m) is Some || order(els_of(w, m)).len() > 0,
    decreases w.len()
{
    if w.len() > 0 {
        let p = w.drop_last();
        assert(w.last() == w[w.len() - 1]);
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).name.v().len() > 0 && (p[i].alias is Some ==> p[i].alias.unwrap().v().len() > 0) by { assert(p[i] == w[i]); }
        lemma_ok(p);
        assert forall|k: (MK, N)| #[trigger] wilds(w).contains(k) implies k.1.len() > 0 by { if wilds(p).contains(k) {} }
        assert forall|m: MK| def_of(w, m) is Some implies (#[trigger] def_of(w, m)).unwrap().len() > 0 by { assert(def_of(p, m) is Some ==> def_of(p, m).unwrap().len() > 0); }
        assert forall|m: MK, e: El| (#[trigger] els_of(w, m)).contains(e) implies #[trigger] el_ok(e) by { if els_of(p, m).contains(e) { assert(el_ok(e)); } }
        assert forall|m: MK| #[trigger] mods(w).contains(m) implies def_of(w, m) is Some || order(els_of(w, m)).len() > 0 by {
            if mods(p).contains(m) { if def_of(p, m) is None { assert(order(els_of(p, m)).len() > 0); lemma_grow(els_of(p, m), els_of(w, m)); } }
            else { match fact(w.last()) { Fact::Plain(k, n) => { assert(els_of(w, m).contains(El::P(n))); } Fact::As(k, n, a) => { assert(els_of(w, m).contains(El::A(n, a))); } _ => {} } lemma_order_len(els_of(w, m)); }
        }
    }
}
pub proof fn lemma_order_len(s: Set<El>) ensures order(s).len() == 0 <==> s == Set::<El>::empty() {
    if order(s).len() == 0 { assert forall|e: El| !s.contains(e) by { assert(order(s).to_set().contains(e) == s.contains(e)); } assert(s =~= Set::empty()); }
    else { assert(order(s).to_set().contains(order(s)[0])); }
}
pub proof fn lemma_grow(a: Set<El>, b: Set<El>)
    requires order(a).len() > 0, a.subset_of(b) ensures order(b).len() > 0
{ lemma_order_len(a); lemma_order_len(b); assert(order(a).to_set().contains(order(a)[0])); assert(b.contains(order(a)[0])); }
pub mod inner {
use super::*;
use super::setm::{BTreeMap, BTreeSet, SetIter};
broadcast use {stdm::axiom_into_iter, setm::group_sets, xstrm::group_string};
@type lang::js::imports::ResolvedModule
@type lang::js::imports::ImportedElement
impl<'a> ImportedElement<'a> { pub open spec fn k(&self) -> El { match *self { ImportedElement::Plain(n) => El::P(n.v()), ImportedElement::Aliased(n, a) => El::A(n.v(), a.v()), ImportedElement::Default(n) => El::D(n.v()) } } }
/// derived Ord: agrees with what elements stand for
impl<'a> Key for ImportedElement<'a> { type K = El; open spec fn key(&self) -> El { self.k() } }
impl<'a> ResolvedModule<'a> {
    pub open spec fn rm(&self) -> RM { RM { def: match self.default_import { Some(d) => Some(d.v()), None => None }, set: self.set.s() } }
}
impl<'a> Default for ResolvedModule<'a> {
@fn lang::js::imports|ResolvedModule|Default|default -> r nopub
    ensures r.default_import is None, r.set.s() == Set::<El>::empty(),
@done
}
@fn lang::js::imports|||render_from
    requires within(old(t).d()),
    ensures final(t).d() == d_text(old(t).d(), seq![Tk::Q(from(match module_path { Some(p) => Some(p.v()), None => None }, module.k()))]),
@done
pub open spec fn inv(map: Map<MK, ResolvedModule<'_>>, w: Seq<Import>) -> bool {
    map.dom() == mods(w) && forall|m: MK| map.dom().contains(m) ==> (#[trigger] map[m]).rm() == rm_of(w, m)
}
pub proof fn lemma_none(w: Seq<Import>, m: MK)
    requires !mods(w).contains(m) ensures rm_of(w, m) == (RM { def: None, set: Set::empty() })
    decreases w.len()
{ if w.len() > 0 { lemma_none(w.drop_last(), m); } }
/// one more import
pub proof fn lemma_inv(map: Map<MK, ResolvedModule<'_>>, w: Seq<Import>, i: int, map2: Map<MK, ResolvedModule<'_>>)
    requires 0 <= i < w.len(), inv(map, w.take(i)),
        ({ let m = mk(fact(w[i]));
        let old = if map.dom().contains(m) { map[m].rm() } else { RM { def: None, set: Set::empty() } };
        match fact(w[i]) {
            Fact::Wild(k, n) => map2 == map,
            Fact::Plain(k, n) => map2 == map.insert(m, map2[m]) && map2[m].rm() == (RM { def: old.def, set: old.set.insert(El::P(n)) }),
            Fact::As(k, n, a) => map2 == map.insert(m, map2[m]) && map2[m].rm() == (RM { def: old.def, set: old.set.insert(El::A(n, a)) }),
            Fact::Def(k, n) => map2 == map.insert(m, map2[m]) && map2[m].rm() == (if old.def is Some && old.def != Some(n) { RM { def: old.def, set: old.set.insert(El::D(n)) } } else { RM { def: Some(n), set: old.set } }),
        } }),
    ensures inv(map2, w.take(i + 1)),
        wilds(w.take(i + 1)) == match fact(w[i]) { Fact::Wild(k, n) => wilds(w.take(i)).insert((k, n)), _ => wilds(w.take(i)) },
{
    let a = w.take(i); let b = w.take(i + 1);
    assert(b.drop_last() =~= a); assert(b.last() == w[i]);
    let m = mk(fact(w[i]));
    if !mods(a).contains(m) { lemma_none(a, m); }
    assert(map2.dom() =~= mods(b));
    assert forall|k: MK| map2.dom().contains(k) implies (#[trigger] map2[k]).rm() == rm_of(b, k) by {
        if k != m { assert(map.dom().contains(k)); assert(map2[k] == map[k]); assert(rm_of(b, k) == rm_of(a, k)); }
        else { assert(map2[m].rm().set =~= rm_of(b, m).set); }
    }
}
impl JavaScript {
@fn lang::js|JavaScript||imports reveal
    requires fresh_line(old(out).d()), named_ok(tokens.walk()),
    ensures final(out).d() == d_block(old(out).d(), head(tokens.walk(), path(*config))),
@start
    hide(d_text);
    broadcast use docm::group_text;
    let ghost w = tokens.walk();
    let ghost mp = path(*config);
    let ghost d0 = out.d();
    let ghost os = order(mods(w));
    let ghost ws = order(wilds(w));
    let ghost wl = ws.map_values(wild_tx(mp));
    let ghost ml = os.map_values(mod_tx(w, mp));
    proof { assert(w.take(w.len() as int) =~= w); lemma_ok(w); assert forall|i: int| 0 <= i < ws.len() implies (#[trigger] ws[i]).1.len() > 0 by { assert(ws.to_set().contains(ws[i])); assert(wilds(w).contains(ws[i])); } assert(w.take(0) =~= Seq::empty()); assert(wl.take(wl.len() as int) =~= wl); assert(ml.take(ml.len() as int) =~= ml); assert(wl + ml.take(0) =~= wl); assert(head(w, mp) =~= wl + ml); }
@loop 0 for import in tokens.walk_imports()
    invariant it0.iter.obeys_prophetic_iter_laws(), it0.iter.will_return_none(), it0.iter.decrease() is Some,
        it0.seq().len() == w.len(), forall|i: int| 0 <= i < w.len() ==> *(#[trigger] it0.seq()[i]) == w[i],
        inv(modules.m(), w.take(it0.index())), wildcards.s() == wilds(w.take(it0.index())),
@lstart 0
    let ghost m0 = modules.m();
@lend 0
    proof { assert(modules.m() =~= m0.insert(mk(fact(*import)), modules.m()[mk(fact(*import))]) || fact(*import) is Wild); lemma_inv(m0, w, it0.index(), modules.m()); }
@loop 1 for (module,name) in wildcards
    invariant it1.iter.obeys_prophetic_iter_laws(), it1.iter.will_return_none(), it1.iter.decrease() is Some,
        keyed(it1.seq(), ws), fresh_line(d0), out.d().ind == 0, forall|i: int| 0 <= i < ws.len() ==> (#[trigger] ws[i]).1.len() > 0,
        it1.index() > 0 || out.d() == d0, d_push(out.d()) == d_emits(d0, wl.take(it1.index())), mp == path(*config), wl == ws.map_values(wild_tx(mp)),
@lstart 1
    broadcast use docm::group_text;
    let ghost d1 = out.d();
    let ghost i = it1.index();
    proof { assert(it1.seq()[i].key() == ws[i]); }
@lend 1
    proof { lemma_line(d0, wl.take(i), d1, wild_tx(mp)(ws[i]), out.d()); assert(wl.take(i + 1) =~= wl.take(i).push(wl[i])); }
@loop 2 for (name,module) in modules
    invariant it2.iter.obeys_prophetic_iter_laws(), it2.iter.will_return_none(), it2.iter.decrease() is Some,
        fresh_line(d0), out.d().ind == 0, d_push(out.d()) == d_emits(d0, wl + ml.take(it2.index())), mp == path(*config), ml == os.map_values(mod_tx(w, mp)),
        it2.seq().len() == os.len(), forall|i: int| 0 <= i < os.len() ==> (#[trigger] it2.seq()[i]).0.key() == os[i] && it2.seq()[i].1.rm() == rm_of(w, os[i]),
        forall|m: MK| def_of(w, m) is Some ==> (#[trigger] def_of(w, m)).unwrap().len() > 0, forall|m: MK, e: El| (#[trigger] els_of(w, m)).contains(e) ==> #[trigger] el_ok(e),
        forall|i: int| 0 <= i < os.len() ==> #[trigger] mods(w).contains(os[i]),
        forall|m: MK| #[trigger] mods(w).contains(m) ==> def_of(w, m) is Some || order(els_of(w, m)).len() > 0,
@lstart 2
    broadcast use docm::group_text;
    let ghost d2 = out.d();
    let ghost j = it2.index();
    let ghost x = rm_of(w, os[j]);
    let ghost s = order(x.set);
    let ghost q = { let p = tx("import") + sp(); (match x.def { Some(d) => sep(p + chars(d)), None => p }) + tx("{") };
    let ghost e0 = d_text(d_push(d2), tx("import"));
    proof {
        assert(it2.seq()[j].0.key() == os[j]); assert(mods(w).contains(os[j])); assert(s.take(s.len() as int) =~= s);
        assert forall|i: int| 0 <= i < s.len() implies el_ok(#[trigger] s[i]) by { assert(s.to_set().contains(s[i])); assert(els_of(w, os[j]).contains(s[i])); }
    }
@lend 2
    proof { lemma_line(d0, wl + ml.take(j), d2, mod_tx(w, mp)(os[j]), out.d()); assert(wl + ml.take(j + 1) =~= (wl + ml.take(j)).push(ml[j])); }
@loop 3 while letSome(el)=it.next()
    invariant it.rem().len() <= s.len(), keyed(it.rem(), s.skip(s.len() - it.rem().len())), forall|i: int| 0 <= i < s.len() ==> el_ok(#[trigger] s[i]),
        within(tokens.d()), tokens.d().lines == e0.lines, tokens.d().ind == 0, s.len() > 0,
        cur(tokens.d()) == ({ let n = s.len() - it.rem().len(); let t = list_tx(q, s.take(n)); if 0 < n < s.len() { sep(t) } else { t } }),
    ensures it.rem().len() == 0,
    decreases it.rem().len(),
@lstart 3
    broadcast use docm::group_text;
    let ghost n = s.len() - it.rem().len() - 1;
    proof { assert(el.key() == s[n]); assert(s.take(n + 1).drop_last() =~= s.take(n)); assert(s.take(n + 1).last() == s[n]); }
@done
@fn lang::js|JavaScript|Lang|format_file -> r reveal lang
    requires named_ok(tokens.walk()),
    ensures r is Ok ==> exists|h: Doc, f: Format| final(out).t() == #[trigger] fmt_ev(fmt_ev(old(out).t(), h, f), tokens.d(), f) && h == d_block(d_empty(), head(tokens.walk(), path(*config))),
@done
}
}
impl Format {
@fn lang::js|Format|Default|default -> r
@done
}
impl Config {
@fn lang::js|Config||with_module_path -> r
    ensures r.module_path is Some, call_ensures(M::into, (module_path,), r.module_path.unwrap()),
@done
}
/// the name by which an import is used
pub open spec fn bound(f: Fact) -> N { match f { Fact::Wild(k, n) => n, Fact::Def(k, n) => n, Fact::Plain(k, n) => n, Fact::As(k, n, a) => a } }
impl Import {
@fn lang::js|Import|LangItem<JavaScript>|format -> r reveal
    ensures r is Ok ==> final(out).t() == old(out).t() + evs(bound(fact(*self))),
@done
@fn lang::js|Import||with_alias -> r
    ensures r.kind == ImportKind::Named, r.module == self.module, r.name == self.name, r.alias is Some && call_ensures(N::into, (alias,), r.alias.unwrap()),
@done
@fn lang::js|Import||into_default -> r
    ensures r.kind == ImportKind::Default, r.module == self.module, r.name == self.name, r.alias is None,
@done
@fn lang::js|Import||into_wildcard -> r
    ensures r.kind == ImportKind::Wildcard, r.module == self.module, r.name == self.name, r.alias is None,
@done
}
/// conversions into ItemStr keep the characters (T04)
pub trait TextOf: Sized {
    spec fn text(&self) -> Seq<char>;
    fn as_item(self) -> (r: ItemStr) ensures r.v() == self.text();
}
impl<'x> TextOf for &'x str { open spec fn text(&self) -> Seq<char> { (*self)@ }
    #[verifier::external_body]
    fn as_item(self) -> (r: ItemStr) { unimplemented!() } }
impl TextOf for String { open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn as_item(self) -> (r: ItemStr) { unimplemented!() } }
impl TextOf for ItemStr { open spec fn text(&self) -> Seq<char> { self.v() }
    fn as_item(self) -> (r: ItemStr) { self } }
impl Module {
@fn lang::js|Module|From<&str>|from -> r
@sig pub fn from_str(value: &str) -> (r: Self)
    ensures r.k() == MK::G(value.text()),
@subst .into() => .as_item()
@done
@fn lang::js|Module|From<String>|from -> r
@sig pub fn from_string(value: String) -> (r: Self)
    ensures r.k() == MK::G(value.text()),
@subst .into() => .as_item()
@done
@fn lang::js|Module|From<ItemStr>|from -> r
@sig pub fn from_item(value: ItemStr) -> (r: Self)
    ensures r.k() == MK::G(value.text()),
@subst .into() => .as_item()
@done
}
@fn lang::js|||import -> r
    ensures r.kind == ImportKind::Named, call_ensures(M::into, (module,), r.module), call_ensures(N::into, (name,), r.name), r.alias is None,
@done
pub open spec fn imported_by(w: Seq<Import>, f: Fact) -> bool { exists|i: int| 0 <= i < w.len() && fact(#[trigger] w[i]) == f }
pub open spec fn by_el(w: Seq<Import>, m: MK, e: El) -> bool {
    match e { El::P(n) => imported_by(w, Fact::Plain(m, n)), El::A(n, a) => imported_by(w, Fact::As(m, n, a)), El::D(n) => imported_by(w, Fact::Def(m, n)) && def_of(w, m) != Some(n) }
}
pub open spec fn by_mod(w: Seq<Import>, m: MK) -> bool { exists|i: int| 0 <= i < w.len() && mk(fact(#[trigger] w[i])) == m && !(fact(w[i]) is Wild) }
pub proof fn lemma_by_step(w: Seq<Import>)
    requires w.len() > 0
    ensures forall|f: Fact| #[trigger] imported_by(w, f) <==> imported_by(w.drop_last(), f) || fact(w.last()) == f,
        forall|m: MK| #[trigger] by_mod(w, m) <==> by_mod(w.drop_last(), m) || (mk(fact(w.last())) == m && !(fact(w.last()) is Wild)),
{
    let p = w.drop_last();
    assert forall|f: Fact| #[trigger] imported_by(w, f) <==> imported_by(p, f) || fact(w.last()) == f by {
        if imported_by(w, f) { let i = choose|i: int| 0 <= i < w.len() && fact(#[trigger] w[i]) == f; if i < p.len() { assert(p[i] == w[i]); } }
        if imported_by(p, f) { let i = choose|i: int| 0 <= i < p.len() && fact(#[trigger] p[i]) == f; assert(w[i] == p[i]); }
        if fact(w.last()) == f { assert(w[w.len() - 1] == w.last()); }
    }
    assert forall|m: MK| #[trigger] by_mod(w, m) <==> by_mod(p, m) || (mk(fact(w.last())) == m && !(fact(w.last()) is Wild)) by {
        if by_mod(w, m) { let i = choose|i: int| 0 <= i < w.len() && mk(fact(#[trigger] w[i])) == m && !(fact(w[i]) is Wild); if i < p.len() { assert(p[i] == w[i]); } }
        if by_mod(p, m) { let i = choose|i: int| 0 <= i < p.len() && mk(fact(#[trigger] p[i])) == m && !(fact(p[i]) is Wild); assert(w[i] == p[i]); }
        if mk(fact(w.last())) == m && !(fact(w.last()) is Wild) { assert(w[w.len() - 1] == w.last()); }
    }
}
pub proof fn lemma_by(w: Seq<Import>)
    ensures forall|m: MK, e: El| #[trigger] els_of(w, m).contains(e) <==> by_el(w, m, e),
        forall|m: MK| #[trigger] mods(w).contains(m) <==> by_mod(w, m),
        forall|k: (MK, N)| #[trigger] wilds(w).contains(k) <==> imported_by(w, Fact::Wild(k.0, k.1)),
        forall|m: MK| (#[trigger] def_of(w, m)) is Some ==> imported_by(w, Fact::Def(m, def_of(w, m).unwrap())),
        forall|m: MK, n: N| #[trigger] imported_by(w, Fact::Def(m, n)) ==> def_of(w, m) is Some,
    decreases w.len()
{
    if w.len() > 0 {
        let p = w.drop_last();
        lemma_by(p); lemma_by_step(w);
        assert forall|m: MK, n: N| #[trigger] imported_by(w, Fact::Def(m, n)) implies def_of(w, m) is Some by { if imported_by(p, Fact::Def(m, n)) { assert(def_of(p, m) is Some); } }
        assert forall|m: MK| (#[trigger] def_of(w, m)) is Some implies imported_by(w, Fact::Def(m, def_of(w, m).unwrap())) by { if def_of(p, m) is Some { assert(imported_by(p, Fact::Def(m, def_of(p, m).unwrap()))); } }
        assert forall|m: MK, e: El| #[trigger] els_of(w, m).contains(e) <==> by_el(w, m, e) by {
            assert(els_of(p, m).contains(e) <==> by_el(p, m, e));
            match e { El::D(n) => { if imported_by(p, Fact::Def(m, n)) { assert(def_of(p, m) is Some); assert(def_of(w, m) == def_of(p, m)); } } _ => {} }
        }
        assert forall|k: (MK, N)| #[trigger] wilds(w).contains(k) <==> imported_by(w, Fact::Wild(k.0, k.1)) by { assert(wilds(p).contains(k) <==> imported_by(p, Fact::Wild(k.0, k.1))); }
        assert forall|m: MK| #[trigger] mods(w).contains(m) <==> by_mod(w, m) by { assert(mods(p).contains(m) <==> by_mod(p, m)); }
    }
}
/// the header imports what the fact says
pub open spec fn in_head(w: Seq<Import>, mp: Option<N>, f: Fact) -> bool {
    match f {
        Fact::Wild(k, n) => head(w, mp).contains(wild_tx(mp)((k, n))),
        Fact::Plain(k, n) => head(w, mp).contains(mod_tx(w, mp)(k)) && order(els_of(w, k)).contains(El::P(n)),
        Fact::As(k, n, a) => head(w, mp).contains(mod_tx(w, mp)(k)) && order(els_of(w, k)).contains(El::A(n, a)),
        // as the default clause or by name, not both
        Fact::Def(k, n) => head(w, mp).contains(mod_tx(w, mp)(k)) && order(els_of(w, k)).contains(El::D(n)) == (def_of(w, k) != Some(n)),
    }
}
pub open spec fn line_of_mod(w: Seq<Import>, mp: Option<N>, l: Seq<Tk>) -> bool { exists|m: MK| by_mod(w, m) && l == #[trigger] mod_tx(w, mp)(m) }
pub open spec fn line_of_wild(w: Seq<Import>, mp: Option<N>, l: Seq<Tk>) -> bool { exists|k: (MK, N)| imported_by(w, Fact::Wild(k.0, k.1)) && l == #[trigger] wild_tx(mp)(k) }
pub proof fn lemma_in_order<K>(s: Set<K>, k: K) requires s.contains(k) ensures order(s).contains(k) { assert(order(s).to_set().contains(k)); }
pub proof fn lemma_of_order<K>(s: Set<K>, k: K) requires order(s).contains(k) ensures s.contains(k) { assert(order(s).to_set().contains(k)); }
/// I03: whatever is used is imported from its module under the name it is used by, once; nothing else is; whatever the order (but for which default import is the default clause)
pub proof fn theorem_js(w: Seq<Import>, mp: Option<N>)
    ensures forall|i: int| 0 <= i < w.len() ==> in_head(w, mp, fact(#[trigger] w[i])),
        forall|l: Seq<Tk>| #[trigger] head(w, mp).contains(l) ==> line_of_mod(w, mp, l) || line_of_wild(w, mp, l),
        forall|m: MK, e: El| #[trigger] order(els_of(w, m)).contains(e) ==> by_el(w, m, e),
        forall|m: MK| (#[trigger] def_of(w, m)) is Some ==> imported_by(w, Fact::Def(m, def_of(w, m).unwrap())),
        forall|m: MK| (#[trigger] order(els_of(w, m))).no_duplicates(), order(mods(w)).no_duplicates(), order(wilds(w)).no_duplicates(),
        forall|x: Seq<Import>| x.to_set() == w.to_set() && (forall|m: MK| #[trigger] def_of(x, m) == def_of(w, m)) ==> #[trigger] head(x, mp) == head(w, mp),
{
    let ws = order(wilds(w)); let os = order(mods(w)); let h = head(w, mp);
    let wl = ws.map_values(wild_tx(mp)); let ml = os.map_values(mod_tx(w, mp));
    lemma_by(w);
    assert forall|i: int| 0 <= i < w.len() implies in_head(w, mp, fact(#[trigger] w[i])) by {
        let f = fact(w[i]); let k = mk(f);
        assert(imported_by(w, f));
        match f {
            Fact::Wild(_, n) => { assert(wilds(w).contains((k, n))); lemma_in_order(wilds(w), (k, n)); let j = choose|j: int| 0 <= j < ws.len() && ws[j] == (k, n); assert(h[j] == wild_tx(mp)((k, n))); }
            _ => {
                assert(by_mod(w, k)); assert(mods(w).contains(k)); lemma_in_order(mods(w), k); let j = choose|j: int| 0 <= j < os.len() && os[j] == k; assert(h[ws.len() + j] == ml[j]); assert(h[ws.len() + j] == mod_tx(w, mp)(k));
                match f {
                    Fact::Plain(_, n) => { assert(by_el(w, k, El::P(n))); lemma_in_order(els_of(w, k), El::P(n)); }
                    Fact::As(_, n, a) => { assert(by_el(w, k, El::A(n, a))); lemma_in_order(els_of(w, k), El::A(n, a)); }
                    Fact::Def(_, n) => {
                        assert(by_el(w, k, El::D(n)) == (def_of(w, k) != Some(n)));
                        if els_of(w, k).contains(El::D(n)) { lemma_in_order(els_of(w, k), El::D(n)); }
                        if order(els_of(w, k)).contains(El::D(n)) { lemma_of_order(els_of(w, k), El::D(n)); }
                    }
                    _ => {}
                }
            }
        }
    }
    assert forall|l: Seq<Tk>| #[trigger] h.contains(l) implies line_of_mod(w, mp, l) || line_of_wild(w, mp, l) by {
        let j = choose|j: int| 0 <= j < h.len() && h[j] == l;
        if j < ws.len() { assert(ws.contains(ws[j])); lemma_of_order(wilds(w), ws[j]); assert(l == wl[j]); assert(l == wild_tx(mp)(ws[j])); }
        else { let k = os[j - ws.len()]; assert(os.contains(k)); lemma_of_order(mods(w), k); assert(l == ml[j - ws.len()]); assert(l == mod_tx(w, mp)(k)); }
    }
    assert forall|m: MK, e: El| #[trigger] order(els_of(w, m)).contains(e) implies by_el(w, m, e) by { lemma_of_order(els_of(w, m), e); assert(els_of(w, m).contains(e)); }
    assert forall|x: Seq<Import>| x.to_set() == w.to_set() && (forall|m: MK| #[trigger] def_of(x, m) == def_of(w, m)) implies #[trigger] head(x, mp) == h by {
        lemma_by(x);
        assert forall|f: Fact| #[trigger] imported_by(x, f) == imported_by(w, f) by {
            if imported_by(x, f) { let i = choose|i: int| 0 <= i < x.len() && fact(#[trigger] x[i]) == f; assert(x.to_set().contains(x[i])); assert(w.to_set().contains(x[i])); let j = choose|j: int| 0 <= j < w.len() && w[j] == x[i]; assert(fact(w[j]) == f); }
            if imported_by(w, f) { let i = choose|i: int| 0 <= i < w.len() && fact(#[trigger] w[i]) == f; assert(w.to_set().contains(w[i])); assert(x.to_set().contains(w[i])); let j = choose|j: int| 0 <= j < x.len() && x[j] == w[i]; assert(fact(x[j]) == f); }
        }
        assert forall|m: MK| #[trigger] by_mod(x, m) == by_mod(w, m) by {
            if by_mod(x, m) { let i = choose|i: int| 0 <= i < x.len() && mk(fact(#[trigger] x[i])) == m && !(fact(x[i]) is Wild); assert(imported_by(x, fact(x[i]))); assert(imported_by(w, fact(x[i]))); let j = choose|j: int| 0 <= j < w.len() && fact(#[trigger] w[j]) == fact(x[i]); assert(mk(fact(w[j])) == m); }
            if by_mod(w, m) { let i = choose|i: int| 0 <= i < w.len() && mk(fact(#[trigger] w[i])) == m && !(fact(w[i]) is Wild); assert(imported_by(w, fact(w[i]))); assert(imported_by(x, fact(w[i]))); let j = choose|j: int| 0 <= j < x.len() && fact(#[trigger] x[j]) == fact(w[i]); assert(mk(fact(x[j])) == m); }
        }
        assert(mods(x) =~= mods(w));
        assert forall|k: (MK, N)| wilds(x).contains(k) == #[trigger] wilds(w).contains(k) by { assert(imported_by(x, Fact::Wild(k.0, k.1)) == imported_by(w, Fact::Wild(k.0, k.1))); }
        assert(wilds(x) =~= wilds(w));
        assert forall|m: MK| #[trigger] els_of(x, m) == els_of(w, m) by {
            assert forall|e: El| els_of(x, m).contains(e) == #[trigger] els_of(w, m).contains(e) by { assert(def_of(x, m) == def_of(w, m)); assert(by_el(x, m, e) == by_el(w, m, e)); }
            assert(els_of(x, m) =~= els_of(w, m));
        }
        let mx = order(mods(x)).map_values(mod_tx(x, mp));
        assert forall|j: int| 0 <= j < os.len() implies #[trigger] mx[j] == ml[j] by { assert(els_of(x, os[j]) == els_of(w, os[j])); assert(def_of(x, os[j]) == def_of(w, os[j])); assert(rm_of(x, os[j]) == rm_of(w, os[j])); }
        assert(mx =~= ml);
    }
}
fn main() {}
}
