@include imp_core.vrs
@type lang::java::Import
@type lang::java::Config
@type lang::java::Format
@const lang::java::SEP str
@const lang::java::JAVA_LANG str
pub type LangItem = Import;
pub type LangConfig = Config;
pub type LangFormat = Format;
pub struct Java;
pub type N = Seq<char>;
/// package and name
pub type Fact = (N, N);
pub open spec fn fact(i: Import) -> Fact { (i.package.v(), i.name.v()) }
pub open spec fn fact_of() -> spec_fn(Import) -> Fact { |i: Import| fact(i) }
pub open spec fn java_lang() -> N { seq!['j', 'a', 'v', 'a', '.', 'l', 'a', 'n', 'g'] }
/// import package.Name;
pub open spec fn line_of() -> spec_fn(Fact) -> Seq<Tk> { |f: Fact| tx("import") + sp() + chars(f.0) + tx(".") + chars(f.1) + tx(";") }
pub open spec fn has_name(s: Seq<Fact>, n: N) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == n }
/// what is imported: of every name the first, but nothing from java.lang or the package of the file
pub open spec fn imps(o: Seq<Fact>, fp: Option<N>) -> Seq<Fact> decreases o.len() {
    if o.len() == 0 { seq![] } else {
        let p = imps(o.drop_last(), fp); let k = o.last();
        if Some(k.0) == fp || k.0 == java_lang() || has_name(p, k.1) { p } else { p.push(k) }
    }
}
pub open spec fn all(w: Seq<Import>) -> Set<Fact> { w.map_values(fact_of()).to_set() }
pub open spec fn picked(w: Seq<Import>, fp: Option<N>) -> Seq<Fact> { imps(order(all(w)), fp) }
pub open spec fn head(w: Seq<Import>, fp: Option<N>) -> Seq<Seq<Tk>> { picked(w, fp).map_values(line_of()) }
/// the header that was built for d
pub open spec fn is_head(d: Doc, ls: Seq<Seq<Tk>>, r: Doc) -> bool { r == d_block(d, ls) || (ls.len() == 0 && r == d_line(d)) }
/// a name stands for what it is imported as, or for what the package of the file has
pub open spec fn scope(m: Map<N, String>, ps: Seq<Fact>, all: Set<Fact>, fp: Option<N>) -> bool {
    &&& forall|n: N| #[trigger] m.dom().contains(n) <==> has_name(ps, n) || (fp is Some && all.contains((fp.unwrap(), n)))
    &&& forall|i: int| 0 <= i < ps.len() ==> m[(#[trigger] ps[i]).1]@ == ps[i].0
    &&& forall|n: N| #[trigger] m.dom().contains(n) && !has_name(ps, n) ==> Some(m[n]@) == fp
}
pub open spec fn fp(config: Config) -> Option<N> { config.package.key() }
pub proof fn lemma_imps(o: Seq<Fact>, fp: Option<N>)
    ensures forall|i: int| 0 <= i < imps(o, fp).len() ==> o.contains(#[trigger] imps(o, fp)[i]) && Some(imps(o, fp)[i].0) != fp && imps(o, fp)[i].0 != java_lang(),
        forall|i: int, j: int| 0 <= i < j < imps(o, fp).len() ==> (#[trigger] imps(o, fp)[i]).1 != (#[trigger] imps(o, fp)[j]).1,
        forall|i: int| 0 <= i < o.len() && Some((#[trigger] o[i]).0) != fp && o[i].0 != java_lang() ==> has_name(imps(o, fp), o[i].1),
    decreases o.len()
{
    if o.len() > 0 {
        let q = o.drop_last(); let p = imps(q, fp); let r = imps(o, fp); let k = o.last();
        lemma_imps(q, fp);
        assert forall|i: int| 0 <= i < r.len() implies o.contains(#[trigger] r[i]) && Some(r[i].0) != fp && r[i].0 != java_lang() by {
            if i < p.len() { assert(r[i] == p[i]); let j = choose|j: int| 0 <= j < q.len() && q[j] == p[i]; assert(o[j] == r[i]); } else { assert(o[o.len() - 1] == r[i]); }
        }
        assert forall|i: int| 0 <= i < o.len() && Some((#[trigger] o[i]).0) != fp && o[i].0 != java_lang() implies has_name(r, o[i].1) by {
            if i < q.len() { assert(o[i] == q[i]); let j = choose|j: int| 0 <= j < p.len() && (#[trigger] p[j]).1 == q[i].1; assert(r[j] == p[j]); }
            else if has_name(p, k.1) {} else { assert(r[p.len() as int] == k); }
        }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).1 != (#[trigger] r[j]).1 by {
            assert(r[i] == p[i]); if j < p.len() { assert(r[j] == p[j]); } else { assert(r[j] == k); assert(!has_name(p, k.1)); }
        }
    }
}
impl Java {
@fn lang::java|Java||imports reveal
    requires fresh_line(old(out).d()), old(imported).m() == Map::<N, String>::empty(),
    ensures is_head(old(out).d(), head(tokens.walk(), fp(*config)), final(out).d()),
        scope(final(imported).m(), picked(tokens.walk(), fp(*config)), all(tokens.walk()), fp(*config)),
@start
    let ghost w = tokens.walk();
    let ghost d0 = out.d();
    let ghost fs = all(w);
    let ghost f = fp(*config);
    let ghost o = order(fs);
    let ghost ls = head(w, f);
    proof { assert(w.take(w.len() as int) =~= w); assert(ls.take(ls.len() as int) =~= ls); assert(o.take(o.len() as int) =~= o); lemma_imps(o, f); }
@loop 0 for import in tokens.walk_imports()
    invariant it0.iter.obeys_prophetic_iter_laws(), it0.iter.will_return_none(), it0.iter.decrease() is Some,
        it0.seq().len() == w.len(), forall|i: int| 0 <= i < w.len() ==> *(#[trigger] it0.seq()[i]) == w[i],
        modules.s() == w.take(it0.index()).map_values(fact_of()).to_set(),
        out.d() == d0,
@lstart 0
    proof { lemma_facts_step(w, fact_of(), it0.index()); }
@loop 1 for (package,name) in modules
    invariant it1.iter.obeys_prophetic_iter_laws(), it1.iter.will_return_none(), it1.iter.decrease() is Some,
        keyed(it1.seq(), o), file_package.key() == f,
        local.s() == o.take(it1.index()).to_set().filter(|k: Fact| Some(k.0) == f),
        scope(imported.m(), imps(o.take(it1.index()), f), Set::<Fact>::empty(), f),
        it1.index() > 0 || out.d() == d0, fresh_line(out.d()),
        d_push(out.d()) == d_emits(d0, imps(o.take(it1.index()), f).map_values(line_of())),
@lstart 1
    let ghost d1 = out.d();
    let ghost i1 = it1.index();
    let ghost m1 = imported.m();
    let ghost ps = imps(o.take(i1), f);
    let ghost k = o[i1];
    proof {
        assert(it1.seq()[i1].key() == k);
        assert(o.take(i1 + 1).drop_last() =~= o.take(i1)); assert(o.take(i1 + 1).last() == k);
        let a = o.take(i1 + 1).to_set().filter(|k: Fact| Some(k.0) == f); let b = o.take(i1).to_set().filter(|k: Fact| Some(k.0) == f);
        assert(o.take(i1 + 1) =~= o.take(i1).push(k));
        assert forall|x: Fact| #[trigger] a.contains(x) <==> (b.contains(x) || (x == k && Some(k.0) == f)) by {
            let s = o.take(i1 + 1); let t = o.take(i1);
            if s.contains(x) && x != k { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; assert(t[j] == x); }
            if t.contains(x) { let j = choose|j: int| 0 <= j < t.len() && t[j] == x; assert(s[j] == x); }
            assert(s[i1] == k);
        }
        if Some(k.0) == f { assert(a =~= b.insert(k)); } else { assert(a =~= b); }
    }
@lend 1
    proof {
        let r = imps(o.take(i1 + 1), f);
        if r.len() > ps.len() {
            assert(r == ps.push(k));
            assert(r.map_values(line_of()).drop_last() =~= ps.map_values(line_of())); assert(r.map_values(line_of()).last() == line_of()(k));
            let e = d_emit(d_push(d1), line_of()(k));
            assert(tx("import").len() > 0);
            assert(out.d().cur =~= e.cur); assert(out.d().lines =~= e.lines);
            let m = imported.m();
            assert forall|n: N| #[trigger] m.dom().contains(n) <==> has_name(r, n) by {
                if has_name(ps, n) { let j = choose|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).1 == n; assert(r[j].1 == n); }
                if n == k.1 { assert(r[ps.len() as int].1 == n); }
                if has_name(r, n) && n != k.1 { let j = choose|j: int| 0 <= j < r.len() && (#[trigger] r[j]).1 == n; assert(ps[j].1 == n); }
            }
            assert forall|i: int| 0 <= i < r.len() implies m[(#[trigger] r[i]).1]@ == r[i].0 by { if i < ps.len() { assert(r[i] == ps[i]); assert(has_name(ps, ps[i].1)); } }
        }
    }
@loop 2 for (package,name) in local
    invariant it2.iter.obeys_prophetic_iter_laws(), it2.iter.will_return_none(), it2.iter.decrease() is Some,
        keyed(it2.seq(), order(fs.filter(|k: Fact| Some(k.0) == f))), d_push(out.d()) == d_emits(d0, ls), fresh_line(out.d()),
        scope(imported.m(), imps(o, f), order(fs.filter(|k: Fact| Some(k.0) == f)).take(it2.index()).to_set(), f),
@lstart 2
    let ghost i2 = it2.index();
    let ghost m2 = imported.m();
    let ghost os = order(fs.filter(|k: Fact| Some(k.0) == f));
    let ghost k2 = os[i2];
    proof {
        assert(it2.seq()[i2].key() == k2);
        assert(os.to_set().contains(k2)); assert(Some(k2.0) == f);
        let a = os.take(i2 + 1).to_set(); let b = os.take(i2).to_set();
        assert forall|x: Fact| #[trigger] a.contains(x) <==> (b.contains(x) || x == k2) by {
            let s = os.take(i2 + 1); let t = os.take(i2);
            if s.contains(x) && x != k2 { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; assert(t[j] == x); }
            if t.contains(x) { let j = choose|j: int| 0 <= j < t.len() && t[j] == x; assert(s[j] == x); }
            assert(s[i2] == k2);
        }
    }
@end
    proof {
        let fl = fs.filter(|k: Fact| Some(k.0) == f); let os = order(fl);
        assert(os.take(os.len() as int) =~= os); assert(os.to_set() == fl);
    }
@done
@fn lang::java|Java|Lang|format_file -> r reveal lang
    ensures r is Ok ==> exists|h: Doc, f: Format| final(out).t() == #[trigger] fmt_ev(fmt_ev(old(out).t(), h, f), tokens.d(), f)
        && is_head(file_head(*config), head(tokens.walk(), fp(*config)), h)
        && scope(f.imported.m(), picked(tokens.walk(), fp(*config)), all(tokens.walk()), fp(*config)),
@done
}
/// package name; and an empty line
pub open spec fn file_head(config: Config) -> Doc {
    match config.package { Some(p) => d_line(d_text(d_text(d_space(d_text(d_empty(), tx("package"))), chars(p.v())), tx(";"))), None => d_empty() }
}
impl Format {
@fn lang::java|Format|Default|default -> r
    ensures r.imported.m() == Map::<N, String>::empty(),
@done
}
impl Config {
@fn lang::java|Config||with_package -> r
    ensures r.package is Some, call_ensures(P::into, (package,), r.package.unwrap()),
@done
}
pub open spec fn qualified(i: Import) -> Seq<char> { i.package.v() + seq!['.'] + i.name.v() }
/// the name is not hidden by something else
pub open spec fn simple(i: Import, f: Format, c: Config) -> bool {
    if f.imported.m().dom().contains(i.name.v()) { f.imported.m()[i.name.v()]@ == i.package.v() } else { i.package.v() == java_lang() || fp(c) == Some(i.package.v()) }
}
impl Import {
@fn lang::java|Import|LangItem<Java>|format -> r reveal
    ensures r is Ok ==> final(out).t() == old(out).t() + evs(if simple(*self, *format, *config) { self.name.v() } else { qualified(*self) }),
@end
    proof { if xt_ret is Ok && !simple(*self, *format, *config) { assert(out.t() =~= old(out).t() + evs(qualified(*self))); } }
@done
}
@fn lang::java|||import -> r
    ensures call_ensures(P::into, (package,), r.package), call_ensures(N::into, (name,), r.name),
@done
pub open spec fn imported_by(w: Seq<Import>, k: Fact) -> bool { exists|j: int| 0 <= j < w.len() && fact(#[trigger] w[j]) == k }
/// the package in which java finds the type a simple name stands for: a single-type import, the package of the file, java.lang
pub open spec fn found_in(n: N, ps: Seq<Fact>, all: Set<Fact>, fp: Option<N>, r: N) -> bool {
    if has_name(ps, n) { exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).1 == n && ps[i].0 == r }
    else if fp is Some && all.contains((fp.unwrap(), n)) { r == fp.unwrap() } else { r == java_lang() }
}
/// I02: a simple name stands for the type it was imported as, names that are used for one type only are simple, no name is imported twice, and what is imported only depends on what is used
pub proof fn theorem_java(w: Seq<Import>, f: Format, c: Config)
    requires scope(f.imported.m(), picked(w, fp(c)), all(w), fp(c))
    ensures
        forall|i: int| 0 <= i < w.len() && simple(#[trigger] w[i], f, c) ==> found_in(w[i].name.v(), picked(w, fp(c)), all(w), fp(c), w[i].package.v()),
        forall|i: int| 0 <= i < w.len() && (forall|j: int| 0 <= j < w.len() && (#[trigger] w[j]).name.v() == w[i].name.v() ==> w[j].package.v() == w[i].package.v()) ==> simple(#[trigger] w[i], f, c),
        forall|i: int, j: int| 0 <= i < j < picked(w, fp(c)).len() ==> (#[trigger] picked(w, fp(c))[i]).1 != (#[trigger] picked(w, fp(c))[j]).1,
        forall|i: int| 0 <= i < picked(w, fp(c)).len() ==> imported_by(w, #[trigger] picked(w, fp(c))[i]),
        forall|x: Seq<Import>| x.to_set() == w.to_set() ==> #[trigger] picked(x, fp(c)) == picked(w, fp(c)),
{
    let o = order(all(w)); let ps = picked(w, fp(c)); let m = f.imported.m(); let fs = w.map_values(fact_of());
    lemma_imps(o, fp(c));
    assert forall|i: int| 0 <= i < w.len() implies all(w).contains(fact(#[trigger] w[i])) && o.contains(fact(w[i])) by {
        assert(fs[i] == fact(w[i])); assert(all(w).contains(fact(w[i]))); assert(o.to_set().contains(fact(w[i])));
    }
    assert forall|i: int| 0 <= i < ps.len() implies imported_by(w, #[trigger] ps[i]) by {
        assert(o.contains(ps[i])); assert(o.to_set().contains(ps[i])); assert(fs.contains(ps[i]));
        let j = choose|j: int| 0 <= j < fs.len() && fs[j] == ps[i]; assert(fact(w[j]) == ps[i]);
    }
    assert forall|i: int| 0 <= i < w.len() && simple(#[trigger] w[i], f, c) implies found_in(w[i].name.v(), ps, all(w), fp(c), w[i].package.v()) by {
        let n = w[i].name.v(); let k = fact(w[i]);
        if has_name(ps, n) { let j = choose|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).1 == n; assert(m.dom().contains(n)); }
        else if m.dom().contains(n) { assert(Some(m[n]@) == fp(c)); }
        else { assert(fp(c) != Some(k.0)); }
    }
    assert forall|i: int| 0 <= i < w.len() && (forall|j: int| 0 <= j < w.len() && (#[trigger] w[j]).name.v() == w[i].name.v() ==> w[j].package.v() == w[i].package.v()) implies simple(#[trigger] w[i], f, c) by {
        let n = w[i].name.v(); let k = fact(w[i]);
        if has_name(ps, n) {
            let j = choose|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).1 == n;
            assert(imported_by(w, ps[j])); let l = choose|l: int| 0 <= l < w.len() && fact(#[trigger] w[l]) == ps[j]; assert(w[l].package.v() == k.0);
        } else if m.dom().contains(n) {
            assert(all(w).contains((fp(c).unwrap(), n)));
            let l = choose|l: int| 0 <= l < fs.len() && fs[l] == (fp(c).unwrap(), n); assert(fact(w[l]) == fs[l]);
            assert(w[l].package.v() == k.0);
        } else {
            assert(o.contains(k)); let l = choose|l: int| 0 <= l < o.len() && o[l] == k;
            assert(Some(o[l].0) == fp(c) || o[l].0 == java_lang());
        }
    }
    assert forall|x: Seq<Import>| x.to_set() == w.to_set() implies #[trigger] picked(x, fp(c)) == picked(w, fp(c)) by { lemma_facts_order(x, w, fact_of()); }
}
fn main() {}
}
