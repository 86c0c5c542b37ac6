@include imp_core.vrs
@type lang::python::TypeModule
@type lang::python::Import
@type lang::python::ImportModule
@type lang::python::Any
@type lang::python::Config
@type lang::python::Format
@const lang::python::SEP str
pub type LangItem = Any;
pub type LangConfig = Config;
pub type LangFormat = Format;
pub struct Python;
pub type N = Seq<char>;
/// a name, or a module, and what it is called
pub type As = (N, Option<N>);
pub open spec fn ov(o: Option<ItemStr>) -> Option<N> { o.key() }
// ---- what an import says ----
pub enum Fact { Mod(As), From(N, As) }
pub open spec fn fact(i: Any) -> Fact {
    match i {
        Any::Import(i) => match i.module { TypeModule::Qualified { module, alias } => Fact::Mod((module.v(), ov(alias))), TypeModule::Unqualified { module } => Fact::From(module.v(), (i.name.v(), ov(i.alias))) },
        Any::ImportModule(i) => Fact::Mod((i.module.v(), ov(i.alias))),
    }
}
pub open spec fn mods(w: Seq<Any>) -> Set<As> decreases w.len() {
    if w.len() == 0 { Set::empty() } else { let s = mods(w.drop_last()); match fact(w.last()) { Fact::Mod(a) => s.insert(a), _ => s } }
}
pub open spec fn froms(w: Seq<Any>) -> Set<N> decreases w.len() {
    if w.len() == 0 { Set::empty() } else { let s = froms(w.drop_last()); match fact(w.last()) { Fact::From(m, a) => s.insert(m), _ => s } }
}
pub open spec fn names(w: Seq<Any>, m: N) -> Set<As> decreases w.len() {
    if w.len() == 0 { Set::empty() } else { let s = names(w.drop_last(), m); match fact(w.last()) { Fact::From(k, a) => if k == m { s.insert(a) } else { s }, _ => s } }
}
// ---- lines ----
/// name; name as alias
pub open spec fn as_tx(p: Seq<Tk>, a: As) -> Seq<Tk> { match a.1 { None => p + chars(a.0), Some(x) => p + chars(a.0) + sp() + tx("as") + sp() + chars(x) } }
pub open spec fn name_tx(a: As) -> Seq<Tk> { match a.1 { None => chars(a.0), Some(x) => chars(a.0) + sp() + tx("as") + sp() + chars(x) } }
pub open spec fn sep(p: Seq<Tk>) -> Seq<Tk> { p + tx(",") + sp() }
pub open spec fn list_tx(p: Seq<Tk>, s: Seq<As>) -> Seq<Tk> decreases s.len() {
    if s.len() == 0 { p } else if s.len() == 1 { p + name_tx(s[0]) } else { sep(list_tx(p, s.drop_last())) + name_tx(s.last()) }
}
/// import module; import module as alias
pub open spec fn mod_tx() -> spec_fn(As) -> Seq<Tk> { |a: As| as_tx(tx("import") + sp(), a) }
/// from module import name, name as alias
pub open spec fn from_tx(w: Seq<Any>) -> spec_fn(N) -> Seq<Tk> { |m: N| list_tx(tx("from") + sp() + chars(m) + sp() + tx("import") + sp(), order(names(w, m))) }
pub open spec fn head(w: Seq<Any>) -> Seq<Seq<Tk>> { order(froms(w)).map_values(from_tx(w)) + order(mods(w)).map_values(mod_tx()) }
pub open spec fn as_ok(a: As) -> bool { a.0.len() > 0 && (a.1 is Some ==> a.1.unwrap().len() > 0) }
pub open spec fn fact_ok(f: Fact) -> bool { match f { Fact::Mod(a) => as_ok(a), Fact::From(m, a) => m.len() > 0 && as_ok(a) } }
pub open spec fn named_ok(w: Seq<Any>) -> bool { forall|i: int| 0 <= i < w.len() ==> fact_ok(fact(#[trigger] w[i])) }
/// no name is empty, and there is something from every module
pub proof fn lemma_ok(w: Seq<Any>)
    requires named_ok(w)
    ensures forall|a: As| #[trigger] mods(w).contains(a) ==> as_ok(a), forall|m: N| #[trigger] froms(w).contains(m) ==> m.len() > 0 && order(names(w, m)).len() > 0,
        forall|m: N, a: As| #[trigger] names(w, m).contains(a) ==> as_ok(a),
    decreases w.len()
{
    if w.len() > 0 {
        let p = w.drop_last();
        assert(w.last() == w[w.len() - 1]);
        assert forall|i: int| 0 <= i < p.len() implies fact_ok(fact(#[trigger] p[i])) by { assert(p[i] == w[i]); }
        lemma_ok(p);
        assert forall|a: As| #[trigger] mods(w).contains(a) implies as_ok(a) by { if mods(p).contains(a) {} }
        assert forall|m: N, a: As| #[trigger] names(w, m).contains(a) implies as_ok(a) by { if names(p, m).contains(a) {} }
        assert forall|m: N| #[trigger] froms(w).contains(m) implies m.len() > 0 && order(names(w, m)).len() > 0 by {
            let s = order(names(w, m));
            if froms(p).contains(m) { let o = order(names(p, m)); assert(o.to_set().contains(o[0])); assert(names(w, m).contains(o[0])); assert(s.to_set().contains(o[0])); }
            else { match fact(w.last()) { Fact::From(k, a) => { assert(names(w, m).contains(a)); assert(s.to_set().contains(a)); } _ => {} } }
        }
    }
}
pub open spec fn inv(map: Map<N, BTreeSet<(&'_ ItemStr, &'_ Option<ItemStr>)>>, w: Seq<Any>) -> bool {
    map.dom() == froms(w) && forall|m: N| map.dom().contains(m) ==> (#[trigger] map[m]).s() == names(w, m)
}
pub proof fn lemma_none(w: Seq<Any>, m: N)
    requires !froms(w).contains(m) ensures names(w, m) == Set::<As>::empty()
    decreases w.len()
{ if w.len() > 0 { lemma_none(w.drop_last(), m); } }
/// one more import
pub proof fn lemma_inv(map: Map<N, BTreeSet<(&'_ ItemStr, &'_ Option<ItemStr>)>>, w: Seq<Any>, i: int, map2: Map<N, BTreeSet<(&'_ ItemStr, &'_ Option<ItemStr>)>>)
    requires 0 <= i < w.len(), inv(map, w.take(i)),
        match fact(w[i]) {
            Fact::Mod(a) => map2 == map,
            Fact::From(m, a) => map2 == map.insert(m, map2[m]) && map2[m].s() == (if map.dom().contains(m) { map[m].s() } else { Set::empty() }).insert(a),
        },
    ensures inv(map2, w.take(i + 1)),
        mods(w.take(i + 1)) == match fact(w[i]) { Fact::Mod(a) => mods(w.take(i)).insert(a), _ => mods(w.take(i)) },
{
    let a = w.take(i); let b = w.take(i + 1);
    assert(b.drop_last() =~= a); assert(b.last() == w[i]);
    match fact(w[i]) {
        Fact::From(m, _) => {
            if !froms(a).contains(m) { lemma_none(a, m); }
            assert(map2.dom() =~= froms(b));
            assert forall|k: N| map2.dom().contains(k) implies (#[trigger] map2[k]).s() == names(b, k) by { if k != m { assert(map.dom().contains(k)); assert(map2[k] == map[k]); } }
        }
        _ => { assert forall|k: N| map2.dom().contains(k) implies (#[trigger] map2[k]).s() == names(b, k) by {} }
    }
}
/// a stream that is part of a line
pub open spec fn inline(s: Tokens, t: Seq<Tk>) -> bool { let d = s.d(); s.clean() && !d.held && d.lines.len() == 0 && d.pend == 0 && !d.sp && d.ind == 0 && d.cur == t }
pub open spec fn names_in(c: Seq<Tokens>, s: Seq<As>, n: int) -> bool { c.len() == n && forall|i: int| 0 <= i < n ==> inline(#[trigger] c[i], name_tx(s[i])) }
impl Python {
@fn lang::python|Python||imports reveal
    requires fresh_line(old(out).d()), named_ok(tokens.walk()),
    ensures final(out).d() == d_block(old(out).d(), head(tokens.walk())),
@start
    hide(d_text);
    broadcast use docm::group_text;
    let ghost w = tokens.walk();
    let ghost d0 = out.d();
    let ghost os = order(froms(w));
    let ghost ms = order(mods(w));
    let ghost fl = os.map_values(from_tx(w));
    let ghost ml = ms.map_values(mod_tx());
    proof {
        assert(w.take(w.len() as int) =~= w); lemma_ok(w); assert(w.take(0) =~= Seq::empty()); assert(fl.take(fl.len() as int) =~= fl); assert(ml.take(ml.len() as int) =~= ml); assert(fl + ml.take(0) =~= fl); assert(head(w) =~= fl + ml);
        assert forall|i: int| 0 <= i < ms.len() implies as_ok(#[trigger] ms[i]) by { assert(ms.to_set().contains(ms[i])); assert(mods(w).contains(ms[i])); }
        assert forall|i: int| 0 <= i < os.len() implies froms(w).contains(#[trigger] os[i]) by { assert(os.to_set().contains(os[i])); }
    }
@loop 0 for import in tokens.walk_imports()
    invariant it0.iter.obeys_prophetic_iter_laws(), it0.iter.will_return_none(), it0.iter.decrease() is Some,
        it0.seq().len() == w.len(), forall|i: int| 0 <= i < w.len() ==> *(#[trigger] it0.seq()[i]) == w[i],
        inv(imported_from.m(), w.take(it0.index())), imports.s() == mods(w.take(it0.index())),
@lstart 0
    let ghost m0 = imported_from.m();
@lend 0
    proof { match fact(*import) { Fact::From(m, a) => { assert(imported_from.m() =~= m0.insert(m, imported_from.m()[m])); } _ => {} } lemma_inv(m0, w, it0.index(), imported_from.m()); }
@loop 1 for (module,imports) in imported_from
    invariant it1.iter.obeys_prophetic_iter_laws(), it1.iter.will_return_none(), it1.iter.decrease() is Some,
        fresh_line(d0), out.d().ind == 0, it1.index() > 0 || out.d() == d0, d_push(out.d()) == d_emits(d0, fl.take(it1.index())), fl == os.map_values(from_tx(w)),
        it1.seq().len() == os.len(), forall|i: int| 0 <= i < os.len() ==> (#[trigger] it1.seq()[i]).0.key() == os[i] && it1.seq()[i].1.s() == names(w, os[i]),
        forall|m: N, a: As| #[trigger] names(w, m).contains(a) ==> as_ok(a),
        forall|i: int| 0 <= i < os.len() ==> #[trigger] froms(w).contains(os[i]),
        forall|m: N| #[trigger] froms(w).contains(m) ==> m.len() > 0 && order(names(w, m)).len() > 0,
@lstart 1
    broadcast use docm::group_text;
    let ghost d1 = out.d();
    let ghost j = it1.index();
    let ghost s = order(names(w, os[j]));
    let ghost q = tx("from") + sp() + chars(os[j]) + sp() + tx("import") + sp();
    let ghost e0 = d_text(d_push(d1), tx("from"));
    proof {
        assert(it1.seq()[j].0.key() == os[j]); assert(froms(w).contains(os[j])); assert(s.take(s.len() as int) =~= s);
        assert forall|i: int| 0 <= i < s.len() implies as_ok(#[trigger] s[i]) by { assert(s.to_set().contains(s[i])); assert(names(w, os[j]).contains(s[i])); }
    }
@lend 1
    proof { assert(s.len() > 0); if s.len() == 1 { assert(list_tx(q, s) == q + name_tx(s[0])); assert(within(out.d())); assert(cur(out.d()) == q + name_tx(s[0])); } else { assert(cur(out.d()) == list_tx(q, s)); } assert(from_tx(w)(os[j]) == list_tx(q, s)); assert(cur(out.d()) == list_tx(q, s)); assert(out.d().cur == list_tx(q, s)); lemma_line(d0, fl.take(j), d1, from_tx(w)(os[j]), out.d()); assert(fl.take(j + 1) =~= fl.take(j).push(fl[j])); }
@loop 2 for xt_m in imports
    invariant it2.iter.obeys_prophetic_iter_laws(), it2.iter.will_return_none(), it2.iter.decrease() is Some,
        keyed(it2.seq(), s), names_in(xt_col@, s, it2.index()), forall|i: int| 0 <= i < s.len() ==> as_ok(#[trigger] s[i]),
@lstart 2
    broadcast use docm::group_text;
    proof { assert(it2.seq()[it2.index()].key() == s[it2.index()]); assert(as_ok(s[it2.index()])); }
@loop 3 while letSome(i)=__it.next()
    invariant __it.rem().len() <= s.len(), forall|i: int| 0 <= i < __it.rem().len() ==> inline(#[trigger] __it.rem()[i], name_tx(s[i + s.len() - __it.rem().len()])), forall|i: int| 0 <= i < s.len() ==> as_ok(#[trigger] s[i]),
        within(__genco_macros_toks.d()), __genco_macros_toks.d().lines == e0.lines, __genco_macros_toks.d().ind == 0, __genco_macros_toks.d().base == 0, !__genco_macros_toks.d().held, s.len() > 0, __it.rem().len() == 0 ==> !__genco_macros_toks.d().sp,
        cur(__genco_macros_toks.d()) == ({ let n = s.len() - __it.rem().len(); let t = list_tx(q, s.take(n)); if 0 < n < s.len() { sep(t) } else { t } }),
    ensures __it.rem().len() == 0,
    decreases __it.rem().len(),
@lstart 3
    broadcast use docm::group_text;
    let ghost n = s.len() - __it.rem().len() - 1;
    proof { assert(as_ok(s[n])); assert(inline(i, name_tx(s[n]))); assert(name_tx(s[n]).len() > 0); assert(s.take(n + 1).drop_last() =~= s.take(n)); assert(s.take(n + 1).last() == s[n]); }
@loop 4 for (module,alias) in imports
    invariant it4.iter.obeys_prophetic_iter_laws(), it4.iter.will_return_none(), it4.iter.decrease() is Some,
        keyed(it4.seq(), ms), fresh_line(d0), out.d().ind == 0, d_push(out.d()) == d_emits(d0, fl + ml.take(it4.index())), ml == ms.map_values(mod_tx()), forall|i: int| 0 <= i < ms.len() ==> as_ok(#[trigger] ms[i]),
@lstart 4
    broadcast use docm::group_text;
    let ghost d4 = out.d();
    let ghost k = it4.index();
    proof { assert(it4.seq()[k].key() == ms[k]); assert(as_ok(ms[k])); }
@lend 4
    proof { lemma_line(d0, fl + ml.take(k), d4, mod_tx()(ms[k]), out.d()); assert(fl + ml.take(k + 1) =~= (fl + ml.take(k)).push(ml[k])); }
@done
@fn lang::python|Python|Lang|format_file -> r reveal lang
    requires named_ok(tokens.walk()),
    ensures r is Ok ==> exists|h: Doc, f: Format| final(out).t() == #[trigger] fmt_ev(fmt_ev(old(out).t(), h, f), tokens.d(), f) && h == d_block(d_empty(), head(tokens.walk())),
@done
}
impl Format {
@fn lang::python|Format|Default|default -> r
@done
}
impl TypeModule {
@fn lang::python|TypeModule||unqualified -> r
    ensures match self { TypeModule::Qualified { module, alias } => r == (TypeModule::Unqualified { module }), _ => r == self },
@done
@fn lang::python|TypeModule||qualified -> r
    ensures match self { TypeModule::Unqualified { module } => r == (TypeModule::Qualified { module, alias: None }), _ => r == self },
@done
@fn lang::python|TypeModule||with_alias -> r
    ensures r is Qualified, r->alias is Some && call_ensures(T::into, (alias,), r->alias.unwrap()),
        r->Qualified_module == match self { TypeModule::Unqualified { module } => module, TypeModule::Qualified { module, alias } => module },
@done
}
/// how an import is used
pub open spec fn reference(i: Any) -> Seq<char> {
    match i {
        Any::Import(i) => match i.module {
            TypeModule::Qualified { module, alias } => (match alias { Some(a) => a.v(), None => module.v() }) + seq!['.'] + (match i.alias { Some(a) => a.v(), None => i.name.v() }),
            TypeModule::Unqualified { module } => match i.alias { Some(a) => a.v(), None => i.name.v() },
        },
        Any::ImportModule(i) => match i.alias { Some(a) => a.v(), None => i.module.v() },
    }
}
/// a name that is qualified has no alias of its own (every public function keeps this)
pub open spec fn excl(i: Import) -> bool { i.module is Qualified ==> i.alias is None }
impl Import {
@fn lang::python|Import|LangItem<Python>|format -> r reveal
    ensures r is Ok ==> final(out).t() == old(out).t() + evs(reference(Any::Import(*self))),
@end
    proof { if xt_ret is Ok { assert(out.t() =~= old(out).t() + evs(reference(Any::Import(*self)))); } }
@done
@fn lang::python|Import||with_alias -> r
    ensures excl(r), r.module is Unqualified, r.name == self.name, r.alias is Some && call_ensures(T::into, (alias,), r.alias.unwrap()), r.module->Unqualified_module == mod_of(self),
@done
@fn lang::python|Import||qualified -> r
    ensures excl(r), r.module is Qualified, r.name == self.name, r.module->Qualified_module == mod_of(self), self.module is Qualified ==> r.module == self.module,
@done
@fn lang::python|Import||with_module_alias -> r
    ensures excl(r), r.module is Qualified, r.name == self.name, r.module->Qualified_module == mod_of(self), r.module->alias is Some && call_ensures(T::into, (module_alias,), r.module->alias.unwrap()),
@done
}
pub open spec fn mod_of(i: Import) -> ItemStr { match i.module { TypeModule::Unqualified { module } => module, TypeModule::Qualified { module, alias } => module } }
impl ImportModule {
@fn lang::python|ImportModule|LangItem<Python>|format -> r reveal
    ensures r is Ok ==> final(out).t() == old(out).t() + evs(reference(Any::ImportModule(*self))),
@done
@fn lang::python|ImportModule||with_alias -> r
    ensures r.module == self.module, r.alias is Some && call_ensures(N::into, (new_alias,), r.alias.unwrap()),
@done
}
@fn lang::python|||import -> r
    ensures excl(r), r.module is Unqualified, call_ensures(M::into, (module,), r.module->Unqualified_module), call_ensures(N::into, (name,), r.name), r.alias is None,
@done
@fn lang::python|||import_module -> r
    ensures call_ensures(M::into, (module,), r.module), r.alias is None,
@done
pub open spec fn imported_by(w: Seq<Any>, f: Fact) -> bool { exists|i: int| 0 <= i < w.len() && fact(#[trigger] w[i]) == f }
pub open spec fn from_by(w: Seq<Any>, m: N) -> bool { exists|a: As| #[trigger] imported_by(w, Fact::From(m, a)) }
pub proof fn lemma_by(w: Seq<Any>)
    ensures forall|m: N, a: As| #[trigger] names(w, m).contains(a) <==> imported_by(w, Fact::From(m, a)),
        forall|a: As| #[trigger] mods(w).contains(a) <==> imported_by(w, Fact::Mod(a)),
        forall|m: N| #[trigger] froms(w).contains(m) <==> from_by(w, m),
    decreases w.len()
{
    if w.len() > 0 {
        let p = w.drop_last();
        lemma_by(p);
        assert forall|f: Fact| #[trigger] imported_by(w, f) <==> imported_by(p, f) || fact(w.last()) == f by {
            if imported_by(w, f) { let i = choose|i: int| 0 <= i < w.len() && fact(#[trigger] w[i]) == f; if i < p.len() { assert(p[i] == w[i]); } }
            if imported_by(p, f) { let i = choose|i: int| 0 <= i < p.len() && fact(#[trigger] p[i]) == f; assert(w[i] == p[i]); }
            if fact(w.last()) == f { assert(w[w.len() - 1] == w.last()); }
        }
        assert forall|m: N, a: As| #[trigger] names(w, m).contains(a) <==> imported_by(w, Fact::From(m, a)) by { assert(names(p, m).contains(a) <==> imported_by(p, Fact::From(m, a))); }
        assert forall|a: As| #[trigger] mods(w).contains(a) <==> imported_by(w, Fact::Mod(a)) by { assert(mods(p).contains(a) <==> imported_by(p, Fact::Mod(a))); }
        assert forall|m: N| #[trigger] froms(w).contains(m) <==> from_by(w, m) by {
            assert(froms(p).contains(m) <==> from_by(p, m));
            if from_by(p, m) { let a = choose|a: As| #[trigger] imported_by(p, Fact::From(m, a)); assert(imported_by(w, Fact::From(m, a))); }
            if from_by(w, m) { let a = choose|a: As| #[trigger] imported_by(w, Fact::From(m, a)); if imported_by(p, Fact::From(m, a)) {} }
            match fact(w.last()) { Fact::From(k, a) => { assert(imported_by(w, Fact::From(k, a))); } _ => {} }
        }
    } else {
        assert forall|m: N| #[trigger] froms(w).contains(m) <==> from_by(w, m) by { if from_by(w, m) { let a = choose|a: As| #[trigger] imported_by(w, Fact::From(m, a)); } }
    }
}
/// the header imports what the fact says
pub open spec fn in_head(w: Seq<Any>, f: Fact) -> bool {
    match f {
        Fact::Mod(a) => head(w).contains(mod_tx()(a)),
        Fact::From(m, a) => head(w).contains(from_tx(w)(m)) && order(names(w, m)).contains(a),
    }
}
pub open spec fn line_of_from(w: Seq<Any>, l: Seq<Tk>) -> bool { exists|m: N| from_by(w, m) && l == #[trigger] from_tx(w)(m) }
pub open spec fn line_of_mod(w: Seq<Any>, l: Seq<Tk>) -> bool { exists|a: As| imported_by(w, Fact::Mod(a)) && l == #[trigger] mod_tx()(a) }
pub proof fn lemma_in_order<K>(s: Set<K>, k: K) requires s.contains(k) ensures order(s).contains(k) { assert(order(s).to_set().contains(k)); }
pub proof fn lemma_of_order<K>(s: Set<K>, k: K) requires order(s).contains(k) ensures s.contains(k) { assert(order(s).to_set().contains(k)); }
/// I03: whatever is used is imported from its module under the name it is used by, once; nothing else is; whatever the order
pub proof fn theorem_python(w: Seq<Any>)
    ensures forall|i: int| 0 <= i < w.len() ==> in_head(w, fact(#[trigger] w[i])),
        forall|l: Seq<Tk>| #[trigger] head(w).contains(l) ==> line_of_mod(w, l) || line_of_from(w, l),
        forall|m: N, a: As| #[trigger] order(names(w, m)).contains(a) ==> imported_by(w, Fact::From(m, a)),
        forall|m: N| (#[trigger] order(names(w, m))).no_duplicates(), order(mods(w)).no_duplicates(), order(froms(w)).no_duplicates(),
        forall|x: Seq<Any>| x.to_set() == w.to_set() ==> #[trigger] head(x) == head(w),
{
    let os = order(froms(w)); let ms = order(mods(w)); let h = head(w);
    let fl = os.map_values(from_tx(w)); let ml = ms.map_values(mod_tx());
    lemma_by(w);
    assert forall|i: int| 0 <= i < w.len() implies in_head(w, fact(#[trigger] w[i])) by {
        let f = fact(w[i]);
        assert(imported_by(w, f));
        match f {
            Fact::Mod(a) => { assert(mods(w).contains(a)); lemma_in_order(mods(w), a); let j = choose|j: int| 0 <= j < ms.len() && ms[j] == a; assert(h[os.len() + j] == ml[j]); assert(h[os.len() + j] == mod_tx()(a)); }
            Fact::From(m, a) => { assert(from_by(w, m)); assert(froms(w).contains(m)); lemma_in_order(froms(w), m); let j = choose|j: int| 0 <= j < os.len() && os[j] == m; assert(h[j] == fl[j]); assert(h[j] == from_tx(w)(m)); assert(names(w, m).contains(a)); lemma_in_order(names(w, m), a); }
        }
    }
    assert forall|l: Seq<Tk>| #[trigger] h.contains(l) implies line_of_mod(w, l) || line_of_from(w, l) by {
        let j = choose|j: int| 0 <= j < h.len() && h[j] == l;
        if j < os.len() { assert(os.contains(os[j])); lemma_of_order(froms(w), os[j]); assert(l == fl[j]); assert(l == from_tx(w)(os[j])); }
        else { let a = ms[j - os.len()]; assert(ms.contains(a)); lemma_of_order(mods(w), a); assert(mods(w).contains(a)); assert(l == ml[j - os.len()]); assert(l == mod_tx()(a)); }
    }
    assert forall|m: N, a: As| #[trigger] order(names(w, m)).contains(a) implies imported_by(w, Fact::From(m, a)) by { lemma_of_order(names(w, m), a); assert(names(w, m).contains(a)); }
    assert forall|x: Seq<Any>| x.to_set() == w.to_set() implies #[trigger] head(x) == h by {
        lemma_by(x);
        assert forall|f: Fact| #[trigger] imported_by(x, f) == imported_by(w, f) by {
            if imported_by(x, f) { let i = choose|i: int| 0 <= i < x.len() && fact(#[trigger] x[i]) == f; assert(x.to_set().contains(x[i])); assert(w.to_set().contains(x[i])); let j = choose|j: int| 0 <= j < w.len() && w[j] == x[i]; assert(fact(w[j]) == f); }
            if imported_by(w, f) { let i = choose|i: int| 0 <= i < w.len() && fact(#[trigger] w[i]) == f; assert(w.to_set().contains(w[i])); assert(x.to_set().contains(w[i])); let j = choose|j: int| 0 <= j < x.len() && x[j] == w[i]; assert(fact(x[j]) == f); }
        }
        assert forall|m: N| #[trigger] from_by(x, m) == from_by(w, m) by {
            if from_by(x, m) { let a = choose|a: As| #[trigger] imported_by(x, Fact::From(m, a)); assert(imported_by(w, Fact::From(m, a))); }
            if from_by(w, m) { let a = choose|a: As| #[trigger] imported_by(w, Fact::From(m, a)); assert(imported_by(x, Fact::From(m, a))); }
        }
        assert(mods(x) =~= mods(w));
        assert(froms(x) =~= froms(w));
        assert forall|m: N| #[trigger] names(x, m) == names(w, m) by { assert(names(x, m) =~= names(w, m)); }
        assert forall|m: N| #[trigger] from_tx(x)(m) == from_tx(w)(m) by {}
        assert(order(froms(x)).map_values(from_tx(x)) =~= fl);
        assert(head(x) =~= h);
    }
}
fn main() {}
}
