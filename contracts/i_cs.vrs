@include imp_core.vrs
@type lang::csharp::Import
@type lang::csharp::Config
@type lang::csharp::Format
@const lang::csharp::SEP str
pub type LangItem = Import;
pub type LangConfig = Config;
pub type LangFormat = Format;
pub struct Csharp;
pub type N = Seq<char>;
/// namespace and name
pub type Fact = (N, N);
pub open spec fn fact(i: Import) -> Fact { (i.namespace.v(), i.name.v()) }
pub open spec fn fact_of() -> spec_fn(Import) -> Fact { |i: Import| fact(i) }
/// using namespace;
pub open spec fn line_of() -> spec_fn(N) -> Seq<Tk> { |f: N| tx("using") + sp() + chars(f) + tx(";") }
pub open spec fn all(w: Seq<Import>) -> Set<Fact> { w.map_values(fact_of()).to_set() }
pub open spec fn ns(config: Config) -> Option<N> { config.namespace.key() }
/// a is the namespace c, or one around it
pub open spec fn around(c: Option<N>, a: N) -> bool {
    match c { Some(c) => a.is_prefix_of(c) && (a.len() == c.len() || c[a.len() as int] == '.'), None => false }
}
/// one of the namespaces around the file has the name
pub open spec fn hidden(s: Seq<Fact>, c: Option<N>, n: N) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == n && around(c, s[i].0) }
pub open spec fn has_name(s: Seq<Fact>, n: N) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == n }
/// r is the namespace where the name is first
pub open spec fn first(s: Seq<Fact>, n: N, r: N) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == (r, n) && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).1 != n }
/// namespaces that are imported: for every name that is not hidden, the first that has it
pub open spec fn usings(o: Seq<Fact>, c: Option<N>, i: int) -> Seq<N> decreases i {
    if i <= 0 { seq![] } else {
        let p = usings(o, c, i - 1); let k = o[i - 1];
        if hidden(o, c, k.1) || has_name(o.take(i - 1), k.1) || p.contains(k.0) { p } else { p.push(k.0) }
    }
}
pub open spec fn picked(w: Seq<Import>, c: Option<N>) -> Seq<N> { usings(order(all(w)), c, order(all(w)).len() as int) }
pub open spec fn head(w: Seq<Import>, c: Option<N>) -> Seq<Seq<Tk>> { picked(w, c).map_values(line_of()) }
pub open spec fn is_head(d: Doc, ls: Seq<Seq<Tk>>, r: Doc) -> bool { r == d_block(d, ls) || (ls.len() == 0 && r == d_line(d)) }
/// r is the innermost namespace around the file that has the name
pub open spec fn innermost(s: Seq<Fact>, c: Option<N>, n: N, r: N) -> bool {
    (exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == (r, n)) && around(c, r) && forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == n && around(c, s[i].0) ==> s[i].0.len() <= r.len()
}
/// two of the imported namespaces have the name
pub open spec fn ambiguous(s: Seq<Fact>, us: Seq<N>, n: N, r: N) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == n && us.contains(s[i].0) && s[i].0 != r }
/// what names stand for after looking at the namespaces around the file
pub open spec fn scope1(m: Map<N, Option<String>>, s: Seq<Fact>, c: Option<N>) -> bool {
    &&& forall|n: N| #[trigger] m.dom().contains(n) <==> hidden(s, c, n)
    &&& forall|n: N| #[trigger] m.dom().contains(n) ==> m[n] is Some && innermost(s, c, n, m[n].unwrap()@)
}
/// ... and at what is imported
pub open spec fn scope2(m: Map<N, Option<String>>, o: Seq<Fact>, c: Option<N>, i: int, us: Seq<N>) -> bool {
    &&& forall|n: N| #[trigger] m.dom().contains(n) <==> hidden(o, c, n) || has_name(o.take(i), n)
    &&& forall|n: N| #[trigger] m.dom().contains(n) ==> m[n] is Some
    &&& forall|n: N| #[trigger] m.dom().contains(n) && hidden(o, c, n) ==> innermost(o, c, n, m[n].unwrap()@)
    &&& forall|n: N| #[trigger] m.dom().contains(n) && !hidden(o, c, n) ==> first(o.take(i), n, m[n].unwrap()@) && us.contains(m[n].unwrap()@)
}
/// ... and at which of those are ambiguous
pub open spec fn scope(m: Map<N, Option<String>>, o: Seq<Fact>, c: Option<N>, i: int, us: Seq<N>) -> bool {
    &&& forall|n: N| #[trigger] m.dom().contains(n) <==> has_name(o, n)
    &&& forall|n: N| #[trigger] m.dom().contains(n) && hidden(o, c, n) ==> m[n] is Some && innermost(o, c, n, m[n].unwrap()@)
    &&& forall|n: N| #[trigger] m.dom().contains(n) && !hidden(o, c, n) ==> exists|r: N| #[trigger] first(o, n, r) && us.contains(r)
            && (if ambiguous(o.take(i), us, n, r) { m[n] is None } else { m[n] is Some && m[n].unwrap()@ == r })
}
pub proof fn lemma_take(o: Seq<Fact>, i: int)
    requires 0 <= i < o.len()
    ensures
        forall|n: N| #[trigger] has_name(o.take(i + 1), n) <==> has_name(o.take(i), n) || n == o[i].1,
        forall|n: N, c: Option<N>| #[trigger] hidden(o.take(i + 1), c, n) <==> hidden(o.take(i), c, n) || (n == o[i].1 && around(c, o[i].0)),
        forall|n: N, r: N| first(o.take(i), n, r) ==> #[trigger] first(o.take(i + 1), n, r),
        forall|n: N, r: N, us: Seq<N>| #[trigger] ambiguous(o.take(i + 1), us, n, r) <==> ambiguous(o.take(i), us, n, r) || (n == o[i].1 && us.contains(o[i].0) && o[i].0 != r),
{
    let s = o.take(i + 1); let t = o.take(i);
    assert(s =~= t.push(o[i])); assert(s[i] == o[i]);
    assert forall|n: N| #[trigger] has_name(s, n) <==> has_name(t, n) || n == o[i].1 by {
        if has_name(t, n) { let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).1 == n; assert(s[j] == t[j]); }
        if has_name(s, n) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).1 == n; if j < i { assert(s[j] == t[j]); } }
    }
    assert forall|n: N, c: Option<N>| #[trigger] hidden(s, c, n) <==> hidden(t, c, n) || (n == o[i].1 && around(c, o[i].0)) by {
        if hidden(t, c, n) { let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).1 == n && around(c, t[j].0); assert(s[j] == t[j]); }
        if hidden(s, c, n) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).1 == n && around(c, s[j].0); if j < i { assert(s[j] == t[j]); } }
    }
    assert forall|n: N, r: N| first(t, n, r) implies #[trigger] first(s, n, r) by {
        let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j] == (r, n) && forall|l: int| 0 <= l < j ==> (#[trigger] t[l]).1 != n;
        assert(s[j] == t[j]); assert forall|l: int| 0 <= l < j implies (#[trigger] s[l]).1 != n by { assert(s[l] == t[l]); }
    }
    assert forall|n: N, r: N, us: Seq<N>| #[trigger] ambiguous(s, us, n, r) <==> ambiguous(t, us, n, r) || (n == o[i].1 && us.contains(o[i].0) && o[i].0 != r) by {
        if ambiguous(t, us, n, r) { let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).1 == n && us.contains(t[j].0) && t[j].0 != r; assert(s[j] == t[j]); }
        if ambiguous(s, us, n, r) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).1 == n && us.contains(s[j].0) && s[j].0 != r; if j < i { assert(s[j] == t[j]); } }
    }
}
/// two namespaces around the file: the shorter is a prefix of the longer
pub proof fn lemma_around(c: Option<N>, a: N, b: N)
    requires around(c, a), around(c, b), a.len() <= b.len()
    ensures a.is_prefix_of(b), a.len() == b.len() ==> a == b
{
    let c = c.unwrap();
    assert(a =~= c.take(a.len() as int)); assert(b =~= c.take(b.len() as int));
    assert(a =~= b.take(a.len() as int));
}
pub proof fn lemma_usings(o: Seq<Fact>, c: Option<N>, i: int)
    requires 0 <= i <= o.len()
    ensures usings(o, c, i).no_duplicates(),
        forall|u: N| usings(o, c, i).contains(u) ==> exists|j: int| 0 <= j < i && #[trigger] o[j].0 == u && !hidden(o, c, o[j].1),
        forall|u: N| #[trigger] usings(o, c, i).contains(u) ==> !around(c, u),
    decreases i
{
    if i > 0 {
        lemma_usings(o, c, i - 1);
        let p = usings(o, c, i - 1); let r = usings(o, c, i); let k = o[i - 1];
        assert forall|u: N| r.contains(u) implies exists|j: int| 0 <= j < i && #[trigger] o[j].0 == u && !hidden(o, c, o[j].1) by {
            if p.contains(u) { let j = choose|j: int| 0 <= j < i - 1 && #[trigger] o[j].0 == u && !hidden(o, c, o[j].1); assert(o[j].0 == u); }
            else { let l = choose|l: int| 0 <= l < r.len() && r[l] == u; if l < p.len() { assert(p[l] == u); } assert(o[i - 1].0 == u); }
        }
        assert forall|u: N| #[trigger] r.contains(u) implies !around(c, u) by {
            let j = choose|j: int| 0 <= j < i && #[trigger] o[j].0 == u && !hidden(o, c, o[j].1);
            if around(c, u) { assert(hidden(o, c, o[j].1)); }
        }
    }
}
impl Config {
@fn lang::csharp|Config||encloses -> r reveal
    ensures r == around(ns(*self), namespace@),
@start
    proof { if self.namespace is Some { let c = self.namespace.unwrap().v(); let a = namespace@; if a.is_prefix_of(c) { let rest = c.skip(a.len() as int); assert(seq!['.'].is_prefix_of(rest) == (rest.len() > 0 && rest[0] == '.')) by { if rest.len() > 0 && rest[0] == '.' { assert(rest.subrange(0, 1) =~= seq!['.']); } if seq!['.'].is_prefix_of(rest) { assert(rest.subrange(0, 1)[0] == seq!['.'][0]); } } } } }
@done
@fn lang::csharp|Config||with_namespace -> r
    ensures r.namespace is Some, call_ensures(N::into, (namespace,), r.namespace.unwrap()),
@done
}
impl Csharp {
@fn lang::csharp|Csharp||imports reveal
    requires fresh_line(old(out).d()), old(imported_names).m() == Map::<N, Option<String>>::empty(),
    ensures is_head(old(out).d(), head(tokens.walk(), ns(*config)), final(out).d()),
        scope(final(imported_names).m(), order(all(tokens.walk())), ns(*config), order(all(tokens.walk())).len() as int, picked(tokens.walk(), ns(*config))),
@start
    let ghost w = tokens.walk();
    let ghost d0 = out.d();
    let ghost fs = all(w);
    let ghost c = ns(*config);
    let ghost o = order(fs);
    let ghost ls = head(w, c);
    let ghost us = picked(w, c);
    proof { assert(w.take(w.len() as int) =~= w); assert(o.take(o.len() as int) =~= o); lemma_usings(o, c, o.len() as int); setm::axiom_order_prefix(fs); }
@loop 0 for import in tokens.walk_imports()
    invariant it0.iter.obeys_prophetic_iter_laws(), it0.iter.will_return_none(), it0.iter.decrease() is Some,
        it0.seq().len() == w.len(), forall|i: int| 0 <= i < w.len() ==> *(#[trigger] it0.seq()[i]) == w[i],
        modules.s() == w.take(it0.index()).map_values(fact_of()).to_set(),
        out.d() == d0,
@lstart 0
    proof { lemma_facts_step(w, fact_of(), it0.index()); }
@loop 1 for &(namespace,name) in &modules
    invariant it1.iter.obeys_prophetic_iter_laws(), it1.iter.will_return_none(), it1.iter.decrease() is Some,
        keyed(it1.seq(), o), out.d() == d0, c == ns(*config), o == order(fs),
        scope1(imported_names.m(), o.take(it1.index()), c),
@lstart 1
    let ghost i1 = it1.index();
    let ghost m1 = imported_names.m();
    proof { assert(it1.seq()[i1].key() == o[i1]); lemma_take(o, i1); setm::axiom_order_prefix(fs); }
@lend 1
    proof {
        let m = imported_names.m(); let s = o.take(i1 + 1); let t = o.take(i1);
        assert forall|n: N| #[trigger] m.dom().contains(n) implies m[n] is Some && innermost(s, c, n, m[n].unwrap()@) by {
            if n == o[i1].1 && around(c, o[i1].0) {
                let r = o[i1].0; assert(s[i1] == (r, n));
                assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == n && around(c, s[i].0) implies s[i].0.len() <= r.len() by {
                    if s[i].0.len() > r.len() { lemma_around(c, r, s[i].0); assert(o[i] == s[i]); assert(r.is_prefix_of(o[i].0)); assert(o[i1].0.is_prefix_of(o[i].0) && o[i1].0 != o[i].0); }
                }
            } else {
                assert(m[n] == m1[n]); assert(m1.dom().contains(n));
                let r = m[n].unwrap()@;
                let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j] == (r, n); assert(s[j] == t[j]);
                assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == n && around(c, s[i].0) implies s[i].0.len() <= r.len() by {
                    if i < i1 { assert(t[i] == s[i]); }
                }
            }
        }
    }
@loop 2 for &(namespace,name) in &modules
    invariant it2.iter.obeys_prophetic_iter_laws(), it2.iter.will_return_none(), it2.iter.decrease() is Some,
        keyed(it2.seq(), o), fresh_line(out.d()), it2.index() > 0 || out.d() == d0,
        imported.s() == usings(o, c, it2.index()).to_set(),
        d_push(out.d()) == d_emits(d0, usings(o, c, it2.index()).map_values(line_of())),
        scope2(imported_names.m(), o, c, it2.index(), usings(o, c, it2.index())),
@lstart 2
    let ghost i2 = it2.index();
    let ghost m2 = imported_names.m();
    let ghost d2 = out.d();
    let ghost p2 = usings(o, c, i2);
    let ghost k2 = o[i2];
    proof { assert(it2.seq()[i2].key() == k2); lemma_take(o, i2); assert(p2.to_set().contains(k2.0) == p2.contains(k2.0)); }
@lend 2
    proof {
        let r = usings(o, c, i2 + 1); let m = imported_names.m();
        if r.len() > p2.len() {
            assert(r == p2.push(k2.0));
            assert(r.to_set() =~= p2.to_set().insert(k2.0)) by { assert forall|u: N| r.to_set().contains(u) <==> #[trigger] p2.to_set().insert(k2.0).contains(u) by { if p2.contains(u) { let j = choose|j: int| 0 <= j < p2.len() && p2[j] == u; assert(r[j] == u); } if u == k2.0 { assert(r[p2.len() as int] == u); } if r.contains(u) { let j = choose|j: int| 0 <= j < r.len() && r[j] == u; if j < p2.len() { assert(p2[j] == u); } } } }
            assert(r.map_values(line_of()).drop_last() =~= p2.map_values(line_of())); assert(r.map_values(line_of()).last() == line_of()(k2.0));
            let e = d_emit(d_push(d2), line_of()(k2.0));
            assert(tx("using").len() > 0);
            assert(out.d().cur =~= e.cur); assert(out.d().lines =~= e.lines);
        }
        assert(forall|u: N| p2.contains(u) ==> r.contains(u)) by { assert forall|u: N| p2.contains(u) implies r.contains(u) by { let j = choose|j: int| 0 <= j < p2.len() && p2[j] == u; assert(r[j] == u); } }
        if !hidden(o, c, k2.1) && !has_name(o.take(i2), k2.1) {
            assert(r.contains(k2.0)) by { if r.len() > p2.len() { assert(r[p2.len() as int] == k2.0); } }
            let s = o.take(i2 + 1); assert(s[i2] == (k2.0, k2.1));
            assert forall|j: int| 0 <= j < i2 implies (#[trigger] s[j]).1 != k2.1 by { assert(s[j] == o.take(i2)[j]); }
            assert(first(s, k2.1, k2.0));
        }
        assert forall|n: N| #[trigger] m.dom().contains(n) && !hidden(o, c, n) implies first(o.take(i2 + 1), n, m[n].unwrap()@) && r.contains(m[n].unwrap()@) by {
            if !(n == k2.1 && !has_name(o.take(i2), n)) { assert(m2.dom().contains(n)); assert(m[n] == m2[n]); }
        }
        assert forall|n: N| #[trigger] m.dom().contains(n) && hidden(o, c, n) implies innermost(o, c, n, m[n].unwrap()@) by { assert(m2.dom().contains(n)); assert(m[n] == m2[n]); }
        assert forall|n: N| #[trigger] m.dom().contains(n) implies m[n] is Some by { if m2.dom().contains(n) { assert(m[n] == m2[n]); } }
    }
@loop 3 for &(namespace,name) in &modules
    invariant it3.iter.obeys_prophetic_iter_laws(), it3.iter.will_return_none(), it3.iter.decrease() is Some,
        keyed(it3.seq(), o), d_push(out.d()) == d_emits(d0, ls), fresh_line(out.d()), c == ns(*config),
        imported.s() == us.to_set(),
        scope(imported_names.m(), o, c, it3.index(), us),
@lstart 3
    let ghost i3 = it3.index();
    let ghost m3 = imported_names.m();
    let ghost k3 = o[i3];
    proof { assert(it3.seq()[i3].key() == k3); lemma_take(o, i3); assert(us.to_set().contains(k3.0) == us.contains(k3.0)); assert(o[i3].1 == k3.1); assert(has_name(o, k3.1)); assert(m3.dom().contains(k3.1)); }
@lend 3
    proof {
        let m = imported_names.m();
        assert forall|n: N| #[trigger] m.dom().contains(n) && !hidden(o, c, n) implies exists|r: N| #[trigger] first(o, n, r) && us.contains(r)
            && (if ambiguous(o.take(i3 + 1), us, n, r) { m[n] is None } else { m[n] is Some && m[n].unwrap()@ == r }) by {
            assert(m3.dom().contains(n));
            let r = choose|r: N| #[trigger] first(o, n, r) && us.contains(r) && (if ambiguous(o.take(i3), us, n, r) { m3[n] is None } else { m3[n] is Some && m3[n].unwrap()@ == r });
            assert(!around(c, r)) by { if around(c, r) { let j = choose|j: int| 0 <= j < o.len() && #[trigger] o[j] == (r, n) && forall|l: int| 0 <= l < j ==> (#[trigger] o[l]).1 != n; assert(hidden(o, c, n)); } }
            assert(first(o, n, r));
        }
    }
@end
@done
@fn lang::csharp|Csharp|Lang|format_file -> r reveal lang
    ensures r is Ok ==> exists|h: Doc, f: Format| #[trigger] is_head(d_empty(), head(tokens.walk(), ns(*config)), h)
        && scope(#[trigger] f.imported_names.m(), order(all(tokens.walk())), ns(*config), order(all(tokens.walk())).len() as int, picked(tokens.walk(), ns(*config)))
        && match ns(*config) {
            None => final(out).t() == fmt_ev(fmt_ev(old(out).t(), h, f), tokens.d(), f),
            Some(n) => final(out).t() == fmt_ev(old(out).t(), in_namespace(h, n, tokens.d(), tokens.clean()), f),
        },
@done
}
/// namespace name { tokens }
pub open spec fn in_namespace(h: Doc, n: N, b: Doc, clean: bool) -> Doc {
    d_text(d_indent(d_add(d_indent(d_text(d_space(d_text(d_space(d_text(h, tx("namespace"))), chars(n))), tx("{")), 1), b, clean), -1), tx("}"))
}
impl Format {
@fn lang::csharp|Format|Default|default -> r
    ensures r.imported_names.m() == Map::<N, Option<String>>::empty(),
@done
}
pub open spec fn qualified(i: Import) -> Seq<char> { i.namespace.v() + seq!['.'] + i.name.v() }
/// the name stands for something else than the type
pub open spec fn taken(c: Config, f: Format, namespace: N, name: N) -> bool {
    ns(c) != Some(namespace) && f.imported_names.m().dom().contains(name) && f.imported_names.m()[name].key() != Some(namespace)
}
@fn lang::csharp::format|||is_qualified -> r
    ensures r == taken(*config, *format, namespace@, name@),
@done
impl Import {
@fn lang::csharp|Import|LangItem<Csharp>|format -> r reveal
    ensures r is Ok ==> final(out).t() == old(out).t() + evs(if self.qualified || taken(*config, *format, self.namespace.v(), self.name.v()) { qualified(*self) } else { self.name.v() }),
@end
    proof { if xt_ret is Ok && out.t() != old(out).t() + evs(self.name.v()) { assert(out.t() =~= old(out).t() + evs(qualified(*self))); } }
@done
@fn lang::csharp|Import||qualified -> r
    ensures r.namespace == self.namespace, r.name == self.name, r.qualified,
@done
}
@fn lang::csharp|||import -> r
    ensures call_ensures(P::into, (namespace,), r.namespace), call_ensures(N::into, (name,), r.name), !r.qualified,
@done
/// C# finds the type of a simple name in namespace r: the innermost namespace around the code that has it, or the one imported namespace that has it
pub open spec fn found_in(o: Seq<Fact>, us: Seq<N>, c: Option<N>, n: N, r: N) -> bool {
    if hidden(o, c, n) { innermost(o, c, n, r) } else { us.contains(r) && o.contains((r, n)) && !ambiguous(o, us, n, r) }
}
pub open spec fn is_simple(i: Import, f: Format, c: Config) -> bool { !i.qualified && !taken(c, f, i.namespace.v(), i.name.v()) }
pub open spec fn named_once(w: Seq<Import>, i: Import) -> bool { forall|j: int| 0 <= j < w.len() && (#[trigger] w[j]).name.v() == i.name.v() ==> w[j].namespace.v() == i.namespace.v() }
/// I02: a simple name stands for the type it was imported as, a name used for one type is simple, a namespace is imported once, and what is imported only depends on what is used
pub proof fn theorem_cs(w: Seq<Import>, f: Format, c: Config)
    requires scope(f.imported_names.m(), order(all(w)), ns(c), order(all(w)).len() as int, picked(w, ns(c)))
    ensures
        forall|i: int| 0 <= i < w.len() && is_simple(#[trigger] w[i], f, c) ==> found_in(order(all(w)), picked(w, ns(c)), ns(c), w[i].name.v(), w[i].namespace.v()),
        forall|i: int| 0 <= i < w.len() && !w[i].qualified && named_once(w, w[i]) ==> is_simple(#[trigger] w[i], f, c),
        picked(w, ns(c)).no_duplicates(),
        forall|x: Seq<Import>| x.to_set() == w.to_set() ==> #[trigger] picked(x, ns(c)) == picked(w, ns(c)),
{
    let o = order(all(w)); let cc = ns(c); let us = picked(w, cc); let m = f.imported_names.m(); let fs = w.map_values(fact_of());
    lemma_usings(o, cc, o.len() as int);
    assert(o.take(o.len() as int) =~= o);
    assert forall|i: int| 0 <= i < w.len() implies o.contains(fact(#[trigger] w[i])) && has_name(o, w[i].name.v()) by {
        assert(fs[i] == fact(w[i])); assert(all(w).contains(fact(w[i]))); assert(o.to_set().contains(fact(w[i])));
        let j = choose|j: int| 0 <= j < o.len() && o[j] == fact(w[i]); assert(o[j].1 == w[i].name.v());
    }
    assert forall|i: int| 0 <= i < w.len() && is_simple(#[trigger] w[i], f, c) implies found_in(o, us, cc, w[i].name.v(), w[i].namespace.v()) by {
        let n = w[i].name.v(); let a = w[i].namespace.v();
        assert(m.dom().contains(n));
        let j = choose|j: int| 0 <= j < o.len() && o[j] == fact(w[i]);
        if cc == Some(a) {
            assert(around(cc, a)); assert(o[j].1 == n && around(cc, o[j].0)); assert(hidden(o, cc, n));
            assert(o[j] == (a, n));
            assert forall|l: int| 0 <= l < o.len() && (#[trigger] o[l]).1 == n && around(cc, o[l].0) implies o[l].0.len() <= a.len() by {}
            assert(innermost(o, cc, n, a));
        } else if !hidden(o, cc, n) {
            let r = choose|r: N| #[trigger] first(o, n, r) && us.contains(r) && (if ambiguous(o, us, n, r) { m[n] is None } else { m[n] is Some && m[n].unwrap()@ == r });
            assert(r == a);
        }
    }
    assert forall|i: int| 0 <= i < w.len() && !w[i].qualified && named_once(w, w[i]) implies is_simple(#[trigger] w[i], f, c) by {
        let n = w[i].name.v(); let a = w[i].namespace.v();
        assert(m.dom().contains(n));
        assert forall|l: int| 0 <= l < o.len() && (#[trigger] o[l]).1 == n implies o[l].0 == a by {
            assert(o.to_set().contains(o[l])); assert(fs.contains(o[l]));
            let j = choose|j: int| 0 <= j < fs.len() && fs[j] == o[l]; assert(fact(w[j]) == o[l]); assert(w[j].name.v() == n);
        }
        if hidden(o, cc, n) {
            let r = m[n].unwrap()@; let l = choose|l: int| 0 <= l < o.len() && #[trigger] o[l] == (r, n); assert(o[l].1 == n);
        } else {
            let r = choose|r: N| #[trigger] first(o, n, r) && us.contains(r) && (if ambiguous(o, us, n, r) { m[n] is None } else { m[n] is Some && m[n].unwrap()@ == r });
            let l = choose|l: int| 0 <= l < o.len() && #[trigger] o[l] == (r, n); assert(o[l].1 == n);
            if ambiguous(o, us, n, r) { let k = choose|k: int| 0 <= k < o.len() && (#[trigger] o[k]).1 == n && us.contains(o[k].0) && o[k].0 != r; }
        }
    }
    assert forall|x: Seq<Import>| x.to_set() == w.to_set() implies #[trigger] picked(x, cc) == picked(w, cc) by { lemma_facts_order(x, w, fact_of()); }
}
fn main() {}
}
