@include imp_core.vrs
use std::collections::VecDeque;
@type lang::rust::ImportMode derive Clone,Copy
@type lang::rust::Module
@type lang::rust::Import
@type lang::rust::Config
@type lang::rust::Format
@const lang::rust::SEP str
pub type LangItem = Import;
pub type LangConfig = Config;
pub type LangFormat = Format;
pub struct Rust;
pub open spec fn sep() -> Seq<char> { seq![':', ':'] }
// ---- what an import says ----
pub enum Fact { Own(Seq<char>), Alias(Seq<char>, Seq<char>), Name(Seq<char>, Seq<char>, Option<Seq<char>>) }
pub open spec fn ov(o: Option<ItemStr>) -> Option<Seq<char>> { match o { Some(x) => Some(x.v()), None => None } }
pub open spec fn fact(i: Import, d: ImportMode) -> Fact {
    match i.module {
        Module::Module { import, module } => match (match import { Some(m) => m, None => d }) {
            ImportMode::Direct => Fact::Name(module.v(), i.name.v(), ov(i.alias)),
            ImportMode::Qualified => Fact::Own(module.v()),
        },
        Module::Aliased { module, alias } => Fact::Alias(module.v(), alias.v()),
    }
}
pub open spec fn module_of(f: Fact) -> Seq<char> { match f { Fact::Own(m) => m, Fact::Alias(m, a) => m, Fact::Name(m, n, a) => m } }
pub type Path = (Seq<char>, Option<Seq<char>>);
/// what is imported by its name
pub open spec fn path_of(f: Fact) -> Set<Path> { match f { Fact::Name(m, n, a) => set![(m + sep() + n, a)], _ => Set::empty() } }
pub open spec fn paths_of(d: ImportMode) -> spec_fn(Import) -> Set<Path> { |i: Import| path_of(fact(i, d)) }
pub open spec fn named(w: Seq<Import>, d: ImportMode) -> Set<Path> { said(w, paths_of(d)) }
/// a module that is imported by its own name needs no import of itself
pub open spec fn kept(f: Fact, n: Set<Path>) -> bool { match f { Fact::Own(m) => !n.contains((m, None)), Fact::Alias(m, a) => !n.contains((m, Some(a))), Fact::Name(m, x, a) => true } }
pub open spec fn says(d: ImportMode, n: Set<Path>) -> spec_fn(Import) -> Set<Fact> { |i: Import| if kept(fact(i, d), n) { set![fact(i, d)] } else { Set::empty() } }
pub open spec fn facts(w: Seq<Import>, d: ImportMode) -> Set<Fact> { said(w, says(d, named(w, d))) }
// ---- what is imported from one module ----
pub struct MI { pub own: bool, pub aliases: Set<Seq<char>>, pub names: Set<(Seq<char>, Option<Seq<char>>)> }
pub open spec fn is_mi(fs: Set<Fact>, m: Seq<char>, x: MI) -> bool {
    &&& x.own == fs.contains(Fact::Own(m))
    &&& forall|a: Seq<char>| #[trigger] x.aliases.contains(a) == fs.contains(Fact::Alias(m, a))
    &&& forall|n: (Seq<char>, Option<Seq<char>>)| #[trigger] x.names.contains(n) == fs.contains(Fact::Name(m, n.0, n.1))
}
pub open spec fn mi_of(fs: Set<Fact>, m: Seq<char>) -> MI { choose|x: MI| is_mi(fs, m, x) }
pub proof fn lemma_mi(fs: Set<Fact>, m: Seq<char>, x: MI)
    requires is_mi(fs, m, x)
    ensures mi_of(fs, m) == x
{
    let y = mi_of(fs, m);
    assert(is_mi(fs, m, y));
    assert(x.aliases =~= y.aliases); assert(x.names =~= y.names);
}
pub open spec fn mods(fs: Set<Fact>) -> Set<Seq<char>> { fs.map(|f: Fact| module_of(f)) }
pub enum RI { S, A(Seq<char>), N(Seq<char>, Option<Seq<char>>) }
pub open spec fn items(m: Seq<char>, x: MI) -> Seq<RI> {
    (if x.own && has(m, sep()) { seq![RI::S] } else { seq![] }) + order(x.aliases).map_values(|a: Seq<char>| RI::A(a)) + order(x.names).map_values(|n: (Seq<char>, Option<Seq<char>>)| RI::N(n.0, n.1))
}
/// no name is empty
pub open spec fn ri_ok(r: RI) -> bool { match r { RI::S => true, RI::A(a) => a.len() > 0, RI::N(n, a) => n.len() > 0 && (a is Some ==> a.unwrap().len() > 0) } }
pub open spec fn fact_ok(f: Fact) -> bool { match f { Fact::Own(m) => m.len() > 0, Fact::Alias(m, a) => m.len() > 0 && a.len() > 0, Fact::Name(m, n, a) => m.len() > 0 && n.len() > 0 && (a is Some ==> a.unwrap().len() > 0) } }
pub open spec fn named_ok(w: Seq<Import>, d: ImportMode) -> bool { forall|i: int| 0 <= i < w.len() ==> fact_ok(fact(#[trigger] w[i], d)) }
pub proof fn lemma_items_ok(fs: Set<Fact>, m: Seq<char>, x: MI)
    requires is_mi(fs, m, x), forall|f: Fact| fs.contains(f) ==> fact_ok(f)
    ensures forall|i: int| 0 <= i < items(m, x).len() ==> ri_ok(#[trigger] items(m, x)[i])
{
    let s = items(m, x); let a = order(x.aliases); let n = order(x.names);
    let a2 = a.map_values(|a: Seq<char>| RI::A(a)); let n2 = n.map_values(|n: (Seq<char>, Option<Seq<char>>)| RI::N(n.0, n.1));
    let k: int = if x.own && has(m, sep()) { 1 } else { 0 };
    assert forall|i: int| 0 <= i < s.len() implies ri_ok(#[trigger] s[i]) by {
        assert(a.len() == a2.len() && n.len() == n2.len());
        if i < k { assert(s[i] == RI::S); }
        else if i < k + a.len() { assert(s[i] == a2[i - k]); assert(a.to_set().contains(a[i - k])); assert(x.aliases.contains(a[i - k])); assert(fact_ok(Fact::Alias(m, a[i - k]))); }
        else { let j = i - k - a.len(); assert(s[i] == n2[j]); assert(n.to_set().contains(n[j])); assert(x.names.contains(n[j])); assert(fact_ok(Fact::Name(m, n[j].0, n[j].1))); }
    }
}
pub proof fn lemma_facts_ok(w: Seq<Import>, d: ImportMode)
    requires named_ok(w, d)
    ensures forall|f: Fact| facts(w, d).contains(f) ==> fact_ok(f)
{ lemma_said(w, says(d, named(w, d))); }
pub proof fn lemma_mods(fs: Set<Fact>)
    requires forall|f: Fact| fs.contains(f) ==> fact_ok(f)
    ensures forall|m: Seq<char>| #[trigger] mods(fs).contains(m) ==> m.len() > 0
{
    assert forall|m: Seq<char>| #[trigger] mods(fs).contains(m) implies m.len() > 0 by { let f = choose|f: Fact| fs.contains(f) && module_of(f) == m; assert(fact_ok(f)); }
}
pub open spec fn and_as(p: Seq<Tk>, a: Seq<char>) -> Seq<Tk> { p + sp() + tx("as") + sp() + chars(a) }
/// p, and then what is imported
pub open spec fn item_tx(p: Seq<Tk>, r: RI) -> Seq<Tk> {
    match r { RI::S => p + tx("self"), RI::A(a) => and_as(p + tx("self"), a), RI::N(n, None) => p + chars(n), RI::N(n, Some(a)) => and_as(p + chars(n), a) }
}
pub open spec fn list_tx(p: Seq<Tk>, s: Seq<RI>) -> Seq<Tk> decreases s.len() {
    if s.len() == 0 { p } else if s.len() == 1 { item_tx(p, s[0]) } else { item_tx(list_tx(p, s.drop_last()) + tx(",") + sp(), s.last()) }
}
/// use m; use m as a; use m::n; use m::n as a; use m::{.., ..};
pub open spec fn use_tx(m: Seq<char>, s: Seq<RI>) -> Seq<Tk> {
    let p = tx("use") + sp() + chars(m);
    if s.len() == 1 {
        (match s[0] { RI::S => p, RI::A(a) => and_as(p, a), RI::N(n, None) => p + tx("::") + chars(n), RI::N(n, Some(a)) => and_as(p + tx("::") + chars(n), a) }) + tx(";")
    } else { list_tx(p + tx("::{"), s) + tx("};") }
}
pub open spec fn use_lines(fs: Set<Fact>, ms: Seq<Seq<char>>) -> Seq<Seq<Tk>> decreases ms.len() {
    if ms.len() == 0 { seq![] } else {
        let m = ms.last();
        let s = items(m, mi_of(fs, m));
        if s.len() == 0 { use_lines(fs, ms.drop_last()) } else { use_lines(fs, ms.drop_last()).push(use_tx(m, s)) }
    }
}
pub open spec fn head(w: Seq<Import>, d: ImportMode) -> Seq<Seq<Tk>> { use_lines(facts(w, d), order(mods(facts(w, d)))) }
pub mod inner {
use super::*;
use super::setm::{BTreeMap, BTreeSet, SetIter};
broadcast use {stdm::axiom_into_iter, setm::group_sets, xstrm::group_string};
@type lang::rust::imports::Import
@type lang::rust::imports::ImportedIter [IntoIter => SetIter]
@type lang::rust::imports::RenderItem derive Clone,Copy
impl<'a> Import<'a> {
    pub open spec fn mi(&self) -> MI { MI { own: self.self_import, aliases: self.self_aliases.s(), names: self.names.s() } }
@fn lang::rust::imports|Import||iter -> r
    ensures r.rem() == items(module@, self.mi()),
@end
    proof { assert(xt_ret.rem() =~= items(module@, self.mi())); }
@done
}
impl<'a> Default for Import<'a> {
@fn lang::rust::imports|Import|Default|default -> r nopub
    ensures !r.self_import, r.self_aliases.s() == Set::<Seq<char>>::empty(), r.names.s() == Set::<(Seq<char>, Option<Seq<char>>)>::empty(),
@done
}
impl<'a> RenderItem<'a> {
    pub open spec fn k(&self) -> RI {
        match *self { RenderItem::SelfImport => RI::S, RenderItem::SelfAlias { alias } => RI::A(alias.v()), RenderItem::Name { name, alias } => RI::N(name.v(), match alias { Some(a) => Some(a.v()), None => None }) }
    }
}
impl<'a> ImportedIter<'a> {
    pub open spec fn rem(&self) -> Seq<RI> {
        (if self.self_import && has(self.module@, sep()) { seq![RI::S] } else { seq![] }) + self.self_aliases.rem().map_values(|a: &'a ItemStr| RI::A(a.v()))
            + self.names.rem().map_values(|n: (&'a ItemStr, Option<&'a ItemStr>)| RI::N(n.0.v(), match n.1 { Some(a) => Some(a.v()), None => None }))
    }
@fn lang::rust::imports|ImportedIter|Iterator|next -> r
@sig pub fn next(&mut self) -> (r: Option<RenderItem<'a>>)
    ensures old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
        old(self).rem().len() > 0 ==> r is Some && r.unwrap().k() == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1),
@done
}
pub open spec fn grown(d: Doc, e: Doc, t: Seq<Tk>) -> bool { within(e) && e.lines == d.lines && e.ind == d.ind && cur(e) == t }
impl<'a> RenderItem<'a> {
@fn lang::rust::imports|RenderItem||render reveal
    requires within(old(out).d()), ri_ok(self.k()),
    ensures grown(old(out).d(), final(out).d(), item_tx(cur(old(out).d()), self.k())),
@start
    hide(d_text);
    broadcast use docm::group_text;
@done
}
impl super::Import {
@fn lang::rust|Import||direct_path -> r
    ensures match fact(*self, config.default_import) { Fact::Name(m, n, a) => r is Some && r.unwrap()@ == m + sep() + n, _ => r is None },
@done
}
pub proof fn lemma_list2(p: Seq<Tk>, s: Seq<RI>)
    ensures s.len() >= 2 ==> list_tx(p, s.take(2)) == item_tx(item_tx(p, s[0]) + tx(",") + sp(), s[1])
{ if s.len() >= 2 { assert(s.take(2).drop_last() =~= s.take(1)); assert(list_tx(p, s.take(1)) == item_tx(p, s[0])); } }
pub open spec fn inv(map: Map<Seq<char>, Import<'_>>, fs: Set<Fact>) -> bool {
    &&& map.dom() == mods(fs)
    &&& forall|m: Seq<char>| map.dom().contains(m) ==> is_mi(fs, m, #[trigger] map[m].mi()) && map[m].mi() == mi_of(fs, m)
}
/// one more fact
pub proof fn lemma_inv(map: Map<Seq<char>, Import<'_>>, fs: Set<Fact>, f: Fact, x: Import<'_>)
    requires inv(map, fs),
        ({ let m = module_of(f);
        let old = if map.dom().contains(m) { map[m].mi() } else { MI { own: false, aliases: Set::empty(), names: Set::empty() } };
        x.mi() == match f { Fact::Own(_) => MI { own: true, ..old }, Fact::Alias(_, a) => MI { aliases: old.aliases.insert(a), ..old }, Fact::Name(_, n, a) => MI { names: old.names.insert((n, a)), ..old } } }),
    ensures inv(map.insert(module_of(f), x), fs.insert(f))
{
    let m = module_of(f); let m2 = map.insert(m, x); let fs2 = fs.insert(f);
    assert forall|k: Seq<char>| m2.dom().contains(k) <==> #[trigger] mods(fs2).contains(k) by {
        if mods(fs2).contains(k) { let g = choose|g: Fact| fs2.contains(g) && module_of(g) == k; if g != f { assert(fs.contains(g)); assert(mods(fs).contains(k)); } }
        if mods(fs).contains(k) { let g = choose|g: Fact| fs.contains(g) && module_of(g) == k; assert(fs2.contains(g)); }
        if k == m { assert(fs2.contains(f)); }
    }
    assert(m2.dom() =~= mods(fs2));
    assert forall|k: Seq<char>| m2.dom().contains(k) implies is_mi(fs2, k, #[trigger] m2[k].mi()) && m2[k].mi() == mi_of(fs2, k) by {
        if k != m { assert(map.dom().contains(k)); }
        else if !map.dom().contains(m) {
            assert forall|g: Fact| module_of(g) == m implies !fs.contains(g) by { if fs.contains(g) { assert(mods(fs).contains(m)); } }
        }
        lemma_mi(fs2, k, m2[k].mi());
    }
}
impl Rust {
@fn lang::rust|Rust||imports reveal
    requires fresh_line(old(out).d()), named_ok(tokens.walk(), config.default_import),
    ensures ({ let h = head(tokens.walk(), config.default_import); if h.len() == 0 { final(out).d() == old(out).d() } else { final(out).d() == d_block(old(out).d(), h) } }),
@start
    hide(d_text);
    broadcast use docm::group_text;
    let ghost w = tokens.walk();
    let ghost d = config.default_import;
    let ghost d0 = out.d();
    let ghost nm = super::named(w, d);
    let ghost fs = facts(w, d);
    let ghost os = order(mods(fs));
    proof { assert(w.take(w.len() as int) =~= w); assert(os.take(os.len() as int) =~= os);
        assert forall|i: int| 0 <= i < os.len() implies mods(fs).contains(#[trigger] os[i]) by { assert(os.to_set().contains(os[i])); }
        lemma_facts_ok(w, d); lemma_mods(fs);
        assert(super::named(w.take(0), d) =~= Set::empty()); assert(said(w.take(0), says(d, nm)) =~= Set::empty()); assert(mods(said(w.take(0), says(d, nm))) =~= Set::empty()); }
@loop 0 for import in tokens.walk_imports()
    invariant it0.iter.obeys_prophetic_iter_laws(), it0.iter.will_return_none(), it0.iter.decrease() is Some,
        it0.seq().len() == w.len(), forall|i: int| 0 <= i < w.len() ==> *(#[trigger] it0.seq()[i]) == w[i],
        named.s() == super::named(w.take(it0.index()), d), d == config.default_import,
        queue@.len() == it0.index(), forall|i: int| 0 <= i < it0.index() ==> #[trigger] queue@[i] == &w[i],
@lstart 0
    proof { lemma_said_step(w, paths_of(d), it0.index()); }
@lend 0
    proof { assert(named.s() =~= super::named(w.take(it0.index() + 1), d)); }
@loop 1 while letSome(import)=queue.pop_front()
    invariant w.take(w.len() as int) == w, fs == said(w, says(d, nm)), queue@.len() <= w.len(), forall|i: int| 0 <= i < queue@.len() ==> #[trigger] queue@[i] == &w[w.len() - queue@.len() + i],
        inv(modules.m(), said(w.take(w.len() - queue@.len()), says(d, nm))), named.s() == nm, d == config.default_import,
    ensures queue@.len() == 0, inv(modules.m(), fs),
    decreases queue@.len(),
@lstart 1
    let ghost k = w.len() - queue@.len() - 1;
    let ghost f0 = said(w.take(k), says(d, nm));
    let ghost f = fact(*import, d);
    let ghost mm = modules.m();
    proof { lemma_said_step(w, says(d, nm), k); }
@lend 1
    proof {
        let f1 = said(w.take(k + 1), says(d, nm));
        if kept(f, nm) { assert(f1 =~= f0.insert(f)); let m = module_of(f); lemma_inv(mm, f0, f, modules.m()[m]); assert(modules.m() =~= mm.insert(m, modules.m()[m])); }
        else { assert(f1 =~= f0); }
    }
@loop 2 for (m,module) in modules
    invariant it2.iter.obeys_prophetic_iter_laws(), it2.iter.will_return_none(), it2.iter.decrease() is Some,
        it2.seq().len() == os.len(), forall|i: int| 0 <= i < os.len() ==> (#[trigger] it2.seq()[i]).0.key() == os[i] && is_mi(fs, os[i], it2.seq()[i].1.mi()) && it2.seq()[i].1.mi() == mi_of(fs, os[i]),
        os == order(mods(fs)), fresh_line(d0), forall|f: Fact| fs.contains(f) ==> fact_ok(f),
        forall|i: int| 0 <= i < os.len() ==> mods(fs).contains(#[trigger] os[i]), has_any == (use_lines(fs, os.take(it2.index())).len() > 0),
        if has_any { d_push(out.d()) == d_emits(d0, use_lines(fs, os.take(it2.index()))) } else { out.d() == d0 },
        out.d().ind == 0,
@lstart 2
    broadcast use docm::group_text;
    let ghost i = it2.index();
    let ghost d1 = out.d();
    let ghost ri = items(m.v(), module.mi());
    let ghost e0 = d_text(d_push(d1), tx("use"));
    let ghost pre = tx("use") + sp() + chars(m.v()) + tx("::{");
    proof { lemma_list2(pre, ri); assert(it2.seq()[i].0.key() == m.v()); lemma_mods(fs); assert(os[i].len() > 0); lemma_items_ok(fs, os[i], mi_of(fs, os[i])); assert(os.take(i + 1).drop_last() =~= os.take(i)); assert(os.take(i + 1).last() == os[i]); }
@lend 2
    proof {
        let u = use_tx(m.v(), ri);
        let l0 = use_lines(fs, os.take(i)); let l1 = use_lines(fs, os.take(i + 1));
        if ri.len() > 0 {
            assert(l1 == l0.push(u)); assert(l1.drop_last() =~= l0);
            assert(ri.take(ri.len() as int) =~= ri);
            assert(l1.drop_last() =~= l0);
            lemma_line(d0, l0, d1, u, out.d());
        } else { assert(l1 == l0); }
    }
@loop 3 ~ for item in render
    invariant forall|i: int| 0 <= i < ri.len() ==> ri_ok(#[trigger] ri[i]), it3.rem().len() + 2 <= ri.len(), it3.rem() == ri.skip(ri.len() - it3.rem().len()),
        within(o.d()), o.d().lines == e0.lines, o.d().ind == 0, cur(o.d()) == list_tx(pre, ri.take(ri.len() - it3.rem().len())),
    ensures it3.rem().len() == 0,
    decreases it3.rem().len(),
@lstart 3
    broadcast use docm::group_text;
    let ghost n = ri.len() - it3.rem().len() - 1;
    let ghost o0 = o.d();
    proof { assert(ri.take(n + 1).drop_last() =~= ri.take(n)); assert(ri.take(n + 1).last() == ri[n]); }
@lend 3
    proof { assert(it3.rem() =~= ri.skip(n + 1)); }
@done
@fn lang::rust|Rust|Lang|format_file -> r reveal lang
    requires named_ok(tokens.walk(), config.default_import),
    ensures r is Ok ==> exists|h: Doc, f: Format| final(out).t() == #[trigger] fmt_ev(fmt_ev(old(out).t(), h, f), tokens.d(), f) && h == d_block(d_empty(), head(tokens.walk(), config.default_import)),
@done
}
}
use inner::Import as ImportsOf;
impl Format {
@fn lang::rust|Format|Default|default -> r
@done
}
impl Config {
@fn lang::rust|Config|Default|default -> r
    ensures r.default_import == ImportMode::Direct,
@done
@fn lang::rust|Config||with_default_import -> r
    ensures r.default_import == default_import,
@done
}
impl Module {
@fn lang::rust|Module||into_module_aliased -> r
    ensures match self { Module::Module { import, module } => r is Aliased && r->Aliased_module == module && call_ensures(A::into, (alias,), r->alias), _ => r == self },
@done
@fn lang::rust|Module||into_aliased -> r
    ensures match self { Module::Module { import, module } => r == (Module::Module { import: Some(ImportMode::Direct), module }), _ => r == self },
@done
@fn lang::rust|Module||direct -> r
    ensures match self { Module::Module { import, module } => r == (Module::Module { import: Some(ImportMode::Direct), module }), _ => r == self },
@done
@fn lang::rust|Module||qualified -> r
    ensures match self { Module::Module { import, module } => r == (Module::Module { import: Some(ImportMode::Qualified), module }), _ => r == self },
@done
}
/// the text a use of an import is printed as
pub open spec fn is_ref(i: Import, d: ImportMode, r: Seq<char>) -> bool {
    match fact(i, d) {
        Fact::Own(m) => exists|l: Seq<char>| #[trigger] after_last(m, sep(), l) && r == l + sep() + i.name.v(),
        Fact::Alias(m, a) => r == a + sep() + i.name.v(),
        Fact::Name(m, n, None) => r == n,
        Fact::Name(m, n, Some(a)) => r == a,
    }
}
impl Import {
@fn lang::rust|Import||with_alias -> r
    ensures r.name == self.name, r.alias is Some && call_ensures(A::into, (alias,), r.alias.unwrap()),
        match self.module { Module::Module { import, module } => r.module == (Module::Module { import: Some(ImportMode::Direct), module }), _ => r.module == self.module },
@done
@fn lang::rust|Import||with_module_alias -> r
    ensures r.name == self.name, r.alias == self.alias,
        match self.module { Module::Module { import, module } => r.module is Aliased && r.module->Aliased_module == module && call_ensures(A::into, (alias,), r.module->alias), _ => r.module == self.module },
@done
@fn lang::rust|Import||qualified -> r
    ensures r.name == self.name, r.alias == self.alias,
        match self.module { Module::Module { import, module } => r.module == (Module::Module { import: Some(ImportMode::Qualified), module }), _ => r.module == self.module },
@done
@fn lang::rust|Import||direct -> r
    ensures r.name == self.name, r.alias == self.alias,
        match self.module { Module::Module { import, module } => r.module == (Module::Module { import: Some(ImportMode::Direct), module }), _ => r.module == self.module },
@done
@fn lang::rust|Import|LangItem<Rust>|format -> r reveal
    ensures r is Ok ==> exists|t: Seq<char>| #[trigger] is_ref(*self, config.default_import, t) && final(out).t() == old(out).t() + evs(t),
@end
    proof {
        if xt_ret is Ok {
            let n = self.name.v();
            match fact(*self, config.default_import) {
                Fact::Own(m) => {
                    let l = choose|l: Seq<char>| #[trigger] after_last(m, sep(), l) && out.t() =~= old(out).t() + evs(l) + evs(sep()) + evs(self.name.v());
                    assert(is_ref(*self, config.default_import, l + sep() + n)); assert(out.t() =~= old(out).t() + evs(l + sep() + n));
                }
                Fact::Alias(m, a) => { assert(is_ref(*self, config.default_import, a + sep() + n)); assert(out.t() =~= old(out).t() + evs(a + sep() + n)); }
                Fact::Name(m, n, None) => { assert(is_ref(*self, config.default_import, n)); }
                Fact::Name(m, n, Some(a)) => { assert(is_ref(*self, config.default_import, a)); }
            }
        }
    }
@done
}
@fn lang::rust|||import -> r
    ensures r.module is Module && r.module->import is None, call_ensures(M::into, (module,), r.module->Module_module), call_ensures(N::into, (name,), r.name), r.alias is None,
@done
pub open spec fn ri_of(f: Fact) -> RI { match f { Fact::Own(m) => RI::S, Fact::Alias(m, a) => RI::A(a), Fact::Name(m, n, a) => RI::N(n, a) } }
/// the path that is imported, and what it is called
pub open spec fn full(f: Fact) -> Path { match f { Fact::Own(m) => (m, None), Fact::Alias(m, a) => (m, Some(a)), Fact::Name(m, n, a) => (m + sep() + n, a) } }
pub open spec fn at_mod(fs: Set<Fact>, m: Seq<char>) -> Seq<RI> { items(m, mi_of(fs, m)) }
pub open spec fn plain(i: Import) -> bool { !i.name.v().contains(':') }
pub open spec fn imported_by(w: Seq<Import>, d: ImportMode, f: Fact) -> bool { exists|i: int| 0 <= i < w.len() && fact(#[trigger] w[i], d) == f }
pub open spec fn named_by(w: Seq<Import>, d: ImportMode, p: Path) -> bool { exists|i: int| 0 <= i < w.len() && path_of(fact(#[trigger] w[i], d)).contains(p) }
/// the line for a module, if it needs one
pub open spec fn has_line(h: Seq<Seq<Tk>>, fs: Set<Fact>, m: Seq<char>) -> bool { at_mod(fs, m).len() > 0 ==> h.contains(use_tx(m, at_mod(fs, m))) }
pub proof fn lemma_named(w: Seq<Import>, d: ImportMode)
    ensures forall|p: Path| #[trigger] named(w, d).contains(p) <==> named_by(w, d, p)
{
    lemma_said(w, paths_of(d));
    assert forall|p: Path| #[trigger] named(w, d).contains(p) <==> named_by(w, d, p) by {
        if named(w, d).contains(p) { let i = choose|i: int| 0 <= i < w.len() && paths_of(d)(#[trigger] w[i]).contains(p); assert(path_of(fact(w[i], d)).contains(p)); }
        if named_by(w, d, p) { let i = choose|i: int| 0 <= i < w.len() && path_of(fact(#[trigger] w[i], d)).contains(p); assert(paths_of(d)(w[i]).contains(p)); }
    }
}
pub proof fn lemma_fact_set(w: Seq<Import>, d: ImportMode)
    ensures forall|f: Fact| #[trigger] facts(w, d).contains(f) <==> imported_by(w, d, f) && kept(f, named(w, d))
{
    let n = named(w, d);
    lemma_said(w, says(d, n));
    assert forall|f: Fact| #[trigger] facts(w, d).contains(f) <==> imported_by(w, d, f) && kept(f, n) by {
        if facts(w, d).contains(f) { let i = choose|i: int| 0 <= i < w.len() && says(d, n)(#[trigger] w[i]).contains(f); assert(fact(w[i], d) == f); }
        if imported_by(w, d, f) && kept(f, n) { let i = choose|i: int| 0 <= i < w.len() && fact(#[trigger] w[i], d) == f; assert(says(d, n)(w[i]).contains(f)); }
    }
}
/// there is what is imported from every module
pub proof fn lemma_mi_of(fs: Set<Fact>, m: Seq<char>)
    ensures is_mi(fs, m, mi_of(fs, m))
{
    let pa = |f: Fact| f is Alias && module_of(f) == m; let ga = |f: Fact| match f { Fact::Alias(x, a) => a, _ => m };
    let pn = |f: Fact| f is Name && module_of(f) == m; let gn = |f: Fact| match f { Fact::Name(x, n, a) => (n, a), _ => (m, None) };
    let aliases = fs.filter(pa).map(ga); let names = fs.filter(pn).map(gn);
    let x = MI { own: fs.contains(Fact::Own(m)), aliases, names };
    assert forall|a: Seq<char>| #[trigger] x.aliases.contains(a) == fs.contains(Fact::Alias(m, a)) by {
        if fs.contains(Fact::Alias(m, a)) { assert(fs.filter(pa).contains(Fact::Alias(m, a))); assert(ga(Fact::Alias(m, a)) == a); }
        if aliases.contains(a) { let f = choose|f: Fact| fs.filter(pa).contains(f) && ga(f) == a; assert(f == Fact::Alias(m, a)); }
    }
    assert forall|n: (Seq<char>, Option<Seq<char>>)| #[trigger] x.names.contains(n) == fs.contains(Fact::Name(m, n.0, n.1)) by {
        let g = Fact::Name(m, n.0, n.1);
        if fs.contains(g) { assert(fs.filter(pn).contains(g)); assert(gn(g) == n); }
        if names.contains(n) { let f = choose|f: Fact| fs.filter(pn).contains(f) && gn(f) == n; assert(f == g); }
    }
    assert(is_mi(fs, m, x));
}
/// an item for every fact about a module, once, and no other
pub proof fn lemma_at_mod(fs: Set<Fact>, m: Seq<char>)
    ensures at_mod(fs, m).no_duplicates(),
        forall|f: Fact| #[trigger] fs.contains(f) && module_of(f) == m && (!(f is Own) || has(m, sep())) ==> at_mod(fs, m).contains(ri_of(f)),
        forall|r: RI| #[trigger] at_mod(fs, m).contains(r) ==> exists|f: Fact| #[trigger] fs.contains(f) && module_of(f) == m && ri_of(f) == r,
{
    lemma_mi_of(fs, m);
    let x = mi_of(fs, m); let s = at_mod(fs, m); let a = order(x.aliases); let n = order(x.names);
    let a2 = a.map_values(|a: Seq<char>| RI::A(a)); let n2 = n.map_values(|n: (Seq<char>, Option<Seq<char>>)| RI::N(n.0, n.1));
    let k: int = if x.own && has(m, sep()) { 1 } else { 0 };
    assert(a.len() == a2.len() && n.len() == n2.len());
    assert forall|i: int| k <= i < k + a.len() implies s[i] == RI::A(a[i - k]) by { assert(s[i] == a2[i - k]); }
    assert forall|i: int| k + a.len() <= i < s.len() implies s[i] == RI::N(n[i - k - a.len()].0, n[i - k - a.len()].1) by { assert(s[i] == n2[i - k - a.len()]); }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies s[i] != s[j] by {
        if i >= k + a.len() { let p = n[i - k - a.len()]; let q = n[j - k - a.len()]; assert(p != q); }
        else if i >= k && j < k + a.len() { assert(a[i - k] != a[j - k]); }
    }
    assert forall|f: Fact| #[trigger] fs.contains(f) && module_of(f) == m && (!(f is Own) || has(m, sep())) implies s.contains(ri_of(f)) by {
        match f {
            Fact::Own(_) => { assert(s[0] == RI::S); }
            Fact::Alias(_, b) => { assert(x.aliases.contains(b)); assert(a.to_set().contains(b)); let i = choose|i: int| 0 <= i < a.len() && a[i] == b; assert(s[k + i] == RI::A(b)); }
            Fact::Name(_, b, c) => { assert(x.names.contains((b, c))); assert(n.to_set().contains((b, c))); let i = choose|i: int| 0 <= i < n.len() && n[i] == (b, c); assert(s[k + a.len() + i] == RI::N(b, c)); }
        }
    }
    assert forall|r: RI| #[trigger] s.contains(r) implies exists|f: Fact| #[trigger] fs.contains(f) && module_of(f) == m && ri_of(f) == r by {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == r;
        if i < k { assert(fs.contains(Fact::Own(m))); }
        else if i < k + a.len() { assert(a.to_set().contains(a[i - k])); assert(x.aliases.contains(a[i - k])); assert(fs.contains(Fact::Alias(m, a[i - k]))); }
        else { let y = n[i - k - a.len()]; assert(n.to_set().contains(y)); assert(x.names.contains(y)); assert(fs.contains(Fact::Name(m, y.0, y.1))); }
    }
}
/// the lines are those of the modules
pub proof fn lemma_use_lines(fs: Set<Fact>, ms: Seq<Seq<char>>)
    ensures forall|i: int| 0 <= i < ms.len() ==> has_line(use_lines(fs, ms), fs, #[trigger] ms[i]),
        forall|l: Seq<Tk>| #[trigger] use_lines(fs, ms).contains(l) ==> exists|i: int| 0 <= i < ms.len() && at_mod(fs, #[trigger] ms[i]).len() > 0 && l == use_tx(ms[i], at_mod(fs, ms[i])),
    decreases ms.len()
{
    if ms.len() > 0 {
        let p = ms.drop_last(); let h = use_lines(fs, p); let r = use_lines(fs, ms); let m = ms.last();
        lemma_use_lines(fs, p);
        assert forall|i: int| 0 <= i < ms.len() implies has_line(r, fs, #[trigger] ms[i]) by {
            if at_mod(fs, ms[i]).len() > 0 {
                let u = use_tx(ms[i], at_mod(fs, ms[i]));
                if i < p.len() { assert(p[i] == ms[i]); assert(has_line(h, fs, p[i])); let j = choose|j: int| 0 <= j < h.len() && h[j] == u; assert(r[j] == u); } else { assert(r[h.len() as int] == u); }
            }
        }
        assert forall|l: Seq<Tk>| #[trigger] r.contains(l) implies exists|i: int| 0 <= i < ms.len() && at_mod(fs, #[trigger] ms[i]).len() > 0 && l == use_tx(ms[i], at_mod(fs, ms[i])) by {
            let j = choose|j: int| 0 <= j < r.len() && r[j] == l;
            if j < h.len() { assert(h.contains(h[j])); let i = choose|i: int| 0 <= i < p.len() && at_mod(fs, #[trigger] p[i]).len() > 0 && l == use_tx(p[i], at_mod(fs, p[i])); assert(ms[i] == p[i]); }
            else { assert(ms[ms.len() - 1] == m); }
        }
    }
}
pub proof fn lemma_full(m: Seq<char>, n: Seq<char>, k: Seq<char>, l: Seq<char>)
    requires m + sep() + n == k + sep() + l, !n.contains(':'), !l.contains(':')
    ensures m == k, n == l
{
    let a = m + sep() + n; let b = k + sep() + l; assert(a.len() == b.len());
    if m.len() < k.len() { let i = k.len() as int + 1; assert(b[i] == ':'); assert(a[i] == n[i - m.len() - 2]); }
    if k.len() < m.len() { let i = m.len() as int + 1; assert(a[i] == ':'); assert(b[i] == ':'); let j = i - k.len() - 2; assert(0 <= j < l.len()); assert(b[i] == l[j]); assert(l.contains(l[j])); }
    assert(m =~= a.take(m.len() as int)); assert(k =~= b.take(k.len() as int)); assert(n =~= a.skip(m.len() as int + 2)); assert(l =~= b.skip(k.len() as int + 2));
}
/// I04: everything that is used is imported, under the name it is used by; once; nothing else is; whatever the order of the imports
pub proof fn theorem_rust(w: Seq<Import>, d: ImportMode)
    ensures
        // an import is in the header, or what it imports is imported by its own name
        forall|i: int| 0 <= i < w.len() ==> facts(w, d).contains(fact(#[trigger] w[i], d)) || (!(fact(w[i], d) is Name) && named_by(w, d, full(fact(w[i], d)))),
        forall|f: Fact| #[trigger] facts(w, d).contains(f) ==> imported_by(w, d, f) && has_line(head(w, d), facts(w, d), module_of(f))
            && ((!(f is Own) || has(module_of(f), sep())) ==> at_mod(facts(w, d), module_of(f)).contains(ri_of(f))),
        // each line is that of a module, with an item for each fact about it, each once
        forall|l: Seq<Tk>| #[trigger] head(w, d).contains(l) ==> exists|m: Seq<char>| #[trigger] at_mod(facts(w, d), m).len() > 0 && l == use_tx(m, at_mod(facts(w, d), m)),
        forall|m: Seq<char>| (#[trigger] at_mod(facts(w, d), m)).no_duplicates(),
        forall|m: Seq<char>, r: RI| #[trigger] at_mod(facts(w, d), m).contains(r) ==> exists|f: Fact| #[trigger] facts(w, d).contains(f) && module_of(f) == m && ri_of(f) == r,
        order(mods(facts(w, d))).no_duplicates(),
        // nothing is imported twice under the same name
        (forall|i: int| 0 <= i < w.len() ==> plain(#[trigger] w[i])) ==> forall|f: Fact, g: Fact| #[trigger] facts(w, d).contains(f) && #[trigger] facts(w, d).contains(g) && f != g ==> full(f) != full(g),
        forall|x: Seq<Import>| x.to_set() == w.to_set() ==> #[trigger] head(x, d) == head(w, d),
{
    let fs = facts(w, d); let n = named(w, d); let ms = order(mods(fs));
    lemma_fact_set(w, d); lemma_named(w, d); lemma_use_lines(fs, ms);
    assert forall|i: int| 0 <= i < w.len() implies facts(w, d).contains(fact(#[trigger] w[i], d)) || (!(fact(w[i], d) is Name) && named_by(w, d, full(fact(w[i], d)))) by {
        assert(imported_by(w, d, fact(w[i], d)));
        if !kept(fact(w[i], d), n) { assert(n.contains(full(fact(w[i], d)))); }
    }
    assert forall|f: Fact| #[trigger] fs.contains(f) implies imported_by(w, d, f) && has_line(head(w, d), fs, module_of(f)) && ((!(f is Own) || has(module_of(f), sep())) ==> at_mod(fs, module_of(f)).contains(ri_of(f))) by {
        assert(mods(fs).contains(module_of(f))); assert(ms.to_set().contains(module_of(f)));
        let i = choose|i: int| 0 <= i < ms.len() && ms[i] == module_of(f); assert(has_line(head(w, d), fs, ms[i]));
        lemma_at_mod(fs, module_of(f));
    }
    assert forall|m: Seq<char>| (#[trigger] at_mod(fs, m)).no_duplicates() by { lemma_at_mod(fs, m); }
    assert forall|m: Seq<char>, r: RI| #[trigger] at_mod(fs, m).contains(r) implies exists|f: Fact| #[trigger] fs.contains(f) && module_of(f) == m && ri_of(f) == r by { lemma_at_mod(fs, m); }
    if forall|i: int| 0 <= i < w.len() ==> plain(#[trigger] w[i]) {
        assert forall|f: Fact, g: Fact| #[trigger] fs.contains(f) && #[trigger] fs.contains(g) && f != g implies full(f) != full(g) by {
            let i = choose|i: int| 0 <= i < w.len() && fact(#[trigger] w[i], d) == f; let j = choose|j: int| 0 <= j < w.len() && fact(#[trigger] w[j], d) == g;
            assert(plain(w[i]) && plain(w[j]));
            if f is Name { assert(path_of(f).contains(full(f))); assert(path_of(fact(w[i], d)).contains(full(f))); assert(named_by(w, d, full(f))); }
            if g is Name { assert(path_of(g).contains(full(g))); assert(path_of(fact(w[j], d)).contains(full(g))); assert(named_by(w, d, full(g))); }
            match (f, g) {
                (Fact::Name(m, n, a), Fact::Name(k, l, b)) => { if full(f) == full(g) { lemma_full(m, n, k, l); } }
                _ => {}
            }
        }
    }
    assert forall|x: Seq<Import>| x.to_set() == w.to_set() implies #[trigger] head(x, d) == head(w, d) by {
        lemma_said_order(x, w, paths_of(d)); lemma_said_order(x, w, says(d, n));
    }
}
fn main() {}
}
