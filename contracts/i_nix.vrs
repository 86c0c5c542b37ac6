@include imp_core.vrs
@type lang::nix::ImportArgument
@type lang::nix::ImportInherit
@type lang::nix::ImportVariable
@type lang::nix::ImportWith
@type lang::nix::Import
@type lang::nix::Config
@type lang::nix::Format
pub type LangItem = Import;
pub type LangConfig = Config;
pub type LangFormat = Format;
pub struct Nix;
pub type N = Seq<char>;
/// derived: streams are compared by what they hold
impl Key for Tokens<Lng> { type K = Tokens<Lng>; open spec fn key(&self) -> Tokens<Lng> { *self } }
pub mod treem {
use super::*;
impl Tokens<Lng> { pub uninterp spec fn height(&self) -> nat; }
/// streams are finite trees: the value of a variable in a stream is less high than the stream
pub axiom fn axiom_height(t: &Tokens<Lng>, i: int)
    requires 0 <= i < t.walk().len(), t.walk()[i] is Variable
    ensures t.walk()[i]->Variable_0.value.height() < t.height();
}
use treem::*;
/// the imports of a stream and those of the values of its variables
pub open spec fn all(t: Tokens<Lng>) -> Seq<Import> decreases t.height(), 1nat, 0nat { all_n(t, t.walk().len()) }
pub open spec fn all_n(t: Tokens<Lng>, n: nat) -> Seq<Import> decreases t.height(), 0nat, n {
    if n == 0 || n > t.walk().len() { seq![] } else {
        let p = all_n(t, (n - 1) as nat).push(t.walk()[n - 1]);
        match t.walk()[n - 1] { Import::Variable(v) => if v.value.height() < t.height() { p + all(v.value) } else { p }, _ => p }
    }
}
// ---- what an import says ----
pub open spec fn first(s: N) -> N { choose|r: N| #[trigger] before_first(s, seq!['.'], r) }
pub proof fn lemma_first(s: N, r: N)
    requires before_first(s, seq!['.'], r) ensures first(s) == r
{
    let q = first(s); assert(before_first(s, seq!['.'], q));
    if has(s, seq!['.']) {
        let i = choose|i: int| #[trigger] at(s, seq!['.'], i) && r == s.take(i) && forall|j: int| #[trigger] at(s, seq!['.'], j) ==> i <= j;
        let k = choose|i: int| #[trigger] at(s, seq!['.'], i) && q == s.take(i) && forall|j: int| #[trigger] at(s, seq!['.'], j) ==> i <= j;
        assert(i <= k && k <= i);
    }
}
/// the argument of the file that the import needs
pub open spec fn arg(i: Import) -> Set<N> {
    match i { Import::Argument(a) => set![a.0.v()], Import::Inherit(a) => set![first(a.path.v())], Import::Variable(_) => Set::empty(), Import::With(a) => set![first(a.argument.v())] }
}
pub open spec fn args_f() -> spec_fn(Import) -> Set<N> { |i: Import| arg(i) }
pub open spec fn with_(i: Import) -> Set<N> { match i { Import::With(a) => set![a.argument.v()], _ => Set::empty() } }
pub open spec fn withs_f() -> spec_fn(Import) -> Set<N> { |i: Import| with_(i) }
pub open spec fn inherit_(i: Import) -> Set<(N, N)> { match i { Import::Inherit(a) => set![(a.path.v(), a.name.v())], _ => Set::empty() } }
pub open spec fn inherits_f() -> spec_fn(Import) -> Set<(N, N)> { |i: Import| inherit_(i) }
pub type Var = (N, Tokens<Lng>);
pub open spec fn var_(i: Import) -> Set<Var> { match i { Import::Variable(a) => set![(a.name.v(), a.value)], _ => Set::empty() } }
pub open spec fn vars_f() -> spec_fn(Import) -> Set<Var> { |i: Import| var_(i) }
pub open spec fn import_ok(i: Import) -> bool {
    match i { Import::Argument(a) => a.0.v().len() > 0, Import::Inherit(a) => a.path.v().len() > 0 && first(a.path.v()).len() > 0 && a.name.v().len() > 0, Import::Variable(a) => a.name.v().len() > 0, Import::With(a) => a.argument.v().len() > 0 && first(a.argument.v()).len() > 0 }
}
pub open spec fn named_ok(w: Seq<Import>) -> bool { forall|i: int| 0 <= i < w.len() ==> import_ok(#[trigger] w[i]) }
pub proof fn lemma_ok(w: Seq<Import>)
    requires named_ok(w)
    ensures forall|i: int| 0 <= i < order(said(w, args_f())).len() ==> (#[trigger] order(said(w, args_f()))[i]).len() > 0,
        forall|i: int| 0 <= i < order(said(w, withs_f())).len() ==> (#[trigger] order(said(w, withs_f()))[i]).len() > 0,
        forall|i: int| 0 <= i < order(said(w, inherits_f())).len() ==> (#[trigger] order(said(w, inherits_f()))[i]).0.len() > 0 && order(said(w, inherits_f()))[i].1.len() > 0,
        forall|i: int| 0 <= i < order(said(w, vars_f())).len() ==> (#[trigger] order(said(w, vars_f()))[i]).0.len() > 0,
{
    let (a, b, c, d) = (order(said(w, args_f())), order(said(w, withs_f())), order(said(w, inherits_f())), order(said(w, vars_f())));
    lemma_said(w, args_f()); lemma_said(w, withs_f()); lemma_said(w, inherits_f()); lemma_said(w, vars_f());
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).len() > 0 by { assert(a.to_set().contains(a[i])); let j = choose|j: int| 0 <= j < w.len() && args_f()(#[trigger] w[j]).contains(a[i]); assert(import_ok(w[j])); }
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).len() > 0 by { assert(b.to_set().contains(b[i])); let j = choose|j: int| 0 <= j < w.len() && withs_f()(#[trigger] w[j]).contains(b[i]); assert(import_ok(w[j])); }
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).0.len() > 0 && c[i].1.len() > 0 by { assert(c.to_set().contains(c[i])); let j = choose|j: int| 0 <= j < w.len() && inherits_f()(#[trigger] w[j]).contains(c[i]); assert(import_ok(w[j])); }
    assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).0.len() > 0 by { assert(d.to_set().contains(d[i])); let j = choose|j: int| 0 <= j < w.len() && vars_f()(#[trigger] w[j]).contains(d[i]); assert(import_ok(w[j])); }
}
// ---- text ----
pub proof fn lemma_join(d: Doc, a: Seq<Tk>, b: Seq<Tk>)
    requires a.len() > 0, b.len() > 0 ensures d_text(d_text(d, a), b) == d_text(d, a + b)
{ assert(d_text(d_text(d, a), b).cur =~= d_text(d, a + b).cur); }
pub proof fn lemma_join_sp(d: Doc, a: Seq<Tk>, b: Seq<Tk>)
    requires a.len() > 0, b.len() > 0 ensures d_text(d_space(d_text(d, a)), b) == d_text(d, a + sp() + b)
{ assert(d_text(d_space(d_text(d, a)), b).cur =~= d_text(d, a + sp() + b).cur); }
pub open spec fn d_row(d: Doc, l: Seq<Tk>) -> Doc { d_push(d_text(d, l)) }
pub open spec fn d_rows(d: Doc, ls: Seq<Seq<Tk>>) -> Doc decreases ls.len() { if ls.len() == 0 { d } else { d_row(d_rows(d, ls.drop_last()), ls.last()) } }
/// name,
pub open spec fn arg_tx() -> spec_fn(N) -> Seq<Tk> { |n: N| chars(n) + tx(",") }
/// with path;
pub open spec fn with_tx() -> spec_fn(N) -> Seq<Tk> { |n: N| tx("with") + sp() + chars(n) + tx(";") }
/// inherit (path) name;
pub open spec fn inherit_tx() -> spec_fn((N, N)) -> Seq<Tk> { |n: (N, N)| tx("inherit") + sp() + tx("(") + chars(n.0) + tx(")") + sp() + chars(n.1) + tx(";") }
/// name = value;
pub open spec fn d_var(d: Doc, v: Var) -> Doc { d_row(d_add(d_space(d_text(d, chars(v.0) + sp() + tx("="))), v.1.d(), v.1.clean()), tx(";")) }
pub open spec fn d_vars(d: Doc, vs: Seq<Var>) -> Doc decreases vs.len() { if vs.len() == 0 { d } else { d_var(d_vars(d, vs.drop_last()), vs.last()) } }
/// { name, ... }:
pub open spec fn d_args(d: Doc, s: Set<N>) -> Doc {
    d_line(d_row(d_indent(d_row(d_rows(d_indent(d_row(d, tx("{")), 1), order(s).map_values(arg_tx())), tx("...")), -1), tx("}:")))
}
pub open spec fn d_withs(d: Doc, s: Set<N>) -> Doc { if order(s).len() == 0 { d } else { d_line(d_rows(d, order(s).map_values(with_tx()))) } }
/// let inherit (path) name; name = value; in
pub open spec fn d_let(d: Doc, i: Set<(N, N)>, v: Set<Var>) -> Doc {
    if order(i).len() == 0 && order(v).len() == 0 { d } else {
        d_line(d_row(d_indent(d_vars(d_rows(d_indent(d_row(d, tx("let")), 1), order(i).map_values(inherit_tx())), order(v)), -1), tx("in")))
    }
}
pub open spec fn file_head(c: Config, w: Seq<Import>) -> Doc {
    let a = if c.scoped { d_empty() } else { d_args(d_empty(), said(w, args_f())) };
    d_let(d_withs(a, said(w, withs_f())), said(w, inherits_f()), said(w, vars_f()))
}
pub open spec fn refs(s: Seq<&'_ Import>) -> Seq<Import> { s.map_values(|x: &'_ Import| *x) }
impl Nix {
@fn lang::nix|Nix||collect
    ensures refs(final(out)@) == refs(old(out)@) + all(*tokens),
    decreases tokens.height(),
@start
    let ghost o = refs(out@);
    let ghost w = tokens.walk();
    proof { assert(o + all_n(*tokens, 0) =~= o); }
@loop 0 for import in tokens.walk_imports()
    invariant it0.iter.obeys_prophetic_iter_laws(), it0.iter.will_return_none(), it0.iter.decrease() is Some,
        it0.seq().len() == w.len(), forall|i: int| 0 <= i < w.len() ==> *(#[trigger] it0.seq()[i]) == w[i], w == tokens.walk(),
        refs(out@) == o + all_n(*tokens, it0.index() as nat),
@lstart 0
    let ghost o1 = out@;
    proof { assert(it0.seq()[it0.index()] == import); if *import is Variable { axiom_height(tokens, it0.index()); } assert(refs(o1.push(import)) =~= refs(o1).push(*import)); }
@lend 0
    proof { assert(refs(out@) =~= o + all_n(*tokens, (it0.index() + 1) as nat)); }
@done
@fn lang::nix|Nix||arguments reveal
    requires named_ok(refs(imports@)),
    ensures final(out).d() == d_args(old(out).d(), said(refs(imports@), args_f())),
@start
    hide(d_text);
    let ghost w = refs(imports@);
    let ghost d0 = out.d();
    let ghost s = said(w, args_f());
    let ghost ls = order(s).map_values(arg_tx());
    let ghost d1 = d_indent(d_row(d0, tx("{")), 1);
    proof { lemma_ok(w); assert(w.take(w.len() as int) =~= w); assert(ls.take(ls.len() as int) =~= ls); }
@loop 0 for &imports in imports
    invariant vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&it0.iter), vstd::std_specs::iter::IteratorSpec::decrease(&it0.iter) is Some,
        it0.seq().len() == w.len(), forall|i: int| 0 <= i < w.len() ==> **(#[trigger] it0.seq()[i]) == w[i],
        arguments.s() == said(w.take(it0.index()), args_f()), out.d() == d0,
@lstart 0
    proof { lemma_said_step(w, args_f(), it0.index()); }
@lend 0
    proof { assert(arguments.s() =~= said(w.take(it0.index() + 1), args_f())); }
@loop 1 for argument in arguments
    invariant it1.iter.obeys_prophetic_iter_laws(), it1.iter.will_return_none(), it1.iter.decrease() is Some,
        keyed(it1.seq(), order(s)), ls == order(s).map_values(arg_tx()),
        forall|i: int| 0 <= i < order(s).len() ==> (#[trigger] order(s)[i]).len() > 0,
        out.d() == d_rows(d1, ls.take(it1.index())),
@lstart 1
    let ghost e1 = out.d();
@lend 1
    proof {
        let k = order(s)[it1.index()]; assert(it1.seq()[it1.index()].key() == k);
        lemma_join(e1, chars(k), tx(","));
        assert(ls.take(it1.index() + 1).drop_last() =~= ls.take(it1.index()));
    }
@done
@fn lang::nix|Nix||withs reveal
    requires named_ok(refs(imports@)),
    ensures final(out).d() == d_withs(old(out).d(), said(refs(imports@), withs_f())),
@start
    hide(d_text);
    let ghost w = refs(imports@);
    let ghost d0 = out.d();
    let ghost s = said(w, withs_f());
    let ghost ls = order(s).map_values(with_tx());
    proof { lemma_ok(w); assert(w.take(w.len() as int) =~= w); assert(ls.take(ls.len() as int) =~= ls); }
@loop 0 for &imports in imports
    invariant vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&it0.iter), vstd::std_specs::iter::IteratorSpec::decrease(&it0.iter) is Some,
        it0.seq().len() == w.len(), forall|i: int| 0 <= i < w.len() ==> **(#[trigger] it0.seq()[i]) == w[i],
        withs.s() == said(w.take(it0.index()), withs_f()), out.d() == d0,
@lstart 0
    proof { lemma_said_step(w, withs_f(), it0.index()); }
@lend 0
    proof { assert(withs.s() =~= said(w.take(it0.index() + 1), withs_f())); }
@loop 1 for name in withs
    invariant it1.iter.obeys_prophetic_iter_laws(), it1.iter.will_return_none(), it1.iter.decrease() is Some,
        keyed(it1.seq(), order(s)), ls == order(s).map_values(with_tx()),
        forall|i: int| 0 <= i < order(s).len() ==> (#[trigger] order(s)[i]).len() > 0,
        out.d() == d_rows(d0, ls.take(it1.index())),
@lstart 1
    let ghost e1 = out.d();
@lend 1
    proof {
        let k = order(s)[it1.index()]; assert(it1.seq()[it1.index()].key() == k);
        lemma_join_sp(e1, tx("with"), chars(k)); lemma_join(e1, tx("with") + sp() + chars(k), tx(";"));
        assert(ls.take(it1.index() + 1).drop_last() =~= ls.take(it1.index()));
    }
@done
@fn lang::nix|Nix||imports reveal
    requires named_ok(refs(imports@)),
    ensures final(out).d() == d_let(old(out).d(), said(refs(imports@), inherits_f()), said(refs(imports@), vars_f())),
@start
    hide(d_text);
    let ghost w = refs(imports@);
    let ghost d0 = out.d();
    let ghost s = said(w, inherits_f());
    let ghost v = said(w, vars_f());
    let ghost ls = order(s).map_values(inherit_tx());
    let ghost d1 = d_indent(d_row(d0, tx("let")), 1);
    let ghost vs = order(v);
    proof { lemma_ok(w); assert(w.take(w.len() as int) =~= w); assert(ls.take(ls.len() as int) =~= ls); assert(vs.take(vs.len() as int) =~= vs); }
@loop 0 for &imports in imports
    invariant vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&it0.iter), vstd::std_specs::iter::IteratorSpec::decrease(&it0.iter) is Some,
        it0.seq().len() == w.len(), forall|i: int| 0 <= i < w.len() ==> **(#[trigger] it0.seq()[i]) == w[i],
        inherits.s() == said(w.take(it0.index()), inherits_f()), variables.s() == said(w.take(it0.index()), vars_f()), out.d() == d0,
@lstart 0
    proof { lemma_said_step(w, inherits_f(), it0.index()); lemma_said_step(w, vars_f(), it0.index()); }
@lend 0
    proof { assert(inherits.s() =~= said(w.take(it0.index() + 1), inherits_f())); assert(variables.s() =~= said(w.take(it0.index() + 1), vars_f())); }
@loop 1 for (path,name) in inherits
    invariant it1.iter.obeys_prophetic_iter_laws(), it1.iter.will_return_none(), it1.iter.decrease() is Some,
        keyed(it1.seq(), order(s)), ls == order(s).map_values(inherit_tx()),
        forall|i: int| 0 <= i < order(s).len() ==> (#[trigger] order(s)[i]).0.len() > 0 && order(s)[i].1.len() > 0,
        out.d() == d_rows(d1, ls.take(it1.index())),
@lstart 1
    let ghost e1 = out.d();
@lend 1
    proof {
        let k = order(s)[it1.index()]; assert(it1.seq()[it1.index()].key() == k);
        let a = tx("inherit"); let b = a + sp() + tx("("); let c = b + chars(k.0); let d = c + tx(")"); let e = d + sp() + chars(k.1);
        lemma_join_sp(e1, a, tx("(")); lemma_join(e1, b, chars(k.0)); lemma_join(e1, c, tx(")")); lemma_join_sp(e1, d, chars(k.1)); lemma_join(e1, e, tx(";"));
        assert(ls.take(it1.index() + 1).drop_last() =~= ls.take(it1.index()));
    }
@loop 2 for (name,value) in variables
    invariant it2.iter.obeys_prophetic_iter_laws(), it2.iter.will_return_none(), it2.iter.decrease() is Some,
        keyed(it2.seq(), vs),
        forall|i: int| 0 <= i < vs.len() ==> (#[trigger] vs[i]).0.len() > 0,
        out.d() == d_vars(d_rows(d1, ls), vs.take(it2.index())),
@lstart 2
    let ghost e1 = out.d();
@lend 2
    proof {
        let k = vs[it2.index()]; assert(it2.seq()[it2.index()].key() == k);
        lemma_join_sp(e1, chars(k.0), tx("="));
        assert(vs.take(it2.index() + 1).drop_last() =~= vs.take(it2.index()));
    }
@done
@fn lang::nix|Nix|Lang|format_file -> r reveal lang
    requires named_ok(all(*tokens)),
    ensures r is Ok ==> exists|h: Doc, f: Format| final(out).t() == #[trigger] fmt_ev(fmt_ev(old(out).t(), h, f), tokens.d(), f) && h == file_head(*config, all(*tokens)),
@start
    let ghost w = all(*tokens);
    proof { assert(seq![] + w =~= w); }
@done
}
impl Format {
@fn lang::nix|Format|Default|default -> r
@done
}
impl Config {
@fn lang::nix|Config|Default|default -> r
    ensures !r.scoped,
@done
@fn lang::nix|Config||with_scoped -> r
    ensures r.scoped == scoped,
@done
}
/// how an import is used
pub open spec fn reference(i: Import) -> N { match i { Import::Argument(a) => a.0.v(), Import::Inherit(a) => a.name.v(), Import::Variable(a) => a.name.v(), Import::With(a) => a.name.v() } }
impl Import {
@fn lang::nix|Import|LangItem<Nix>|format -> r reveal
    ensures r is Ok ==> final(out).t() == old(out).t() + evs(reference(*self)),
@done
}
@fn lang::nix|||argument -> r
    ensures r is Argument, call_ensures(M::into, (name,), r->Argument_0.0),
@done
@fn lang::nix|||inherit -> r
    ensures r is Inherit, call_ensures(M::into, (path,), r->Inherit_0.path), call_ensures(N::into, (name,), r->Inherit_0.name),
@done
@fn lang::nix|||variable -> r
    ensures r is Variable, call_ensures(M::into, (name,), r->Variable_0.name), call_ensures(N::into, (value,), r->Variable_0.value),
@done
@fn lang::nix|||with -> r
    ensures r is With, call_ensures(M::into, (argument,), r->With_0.argument), call_ensures(N::into, (name,), r->With_0.name),
@done
// ---- what follows ----
pub open spec fn within_value(t: Tokens<Lng>, j: int, i: Import) -> bool { 0 <= j < t.walk().len() && t.walk()[j] is Variable && all(t.walk()[j]->Variable_0.value).contains(i) }
pub proof fn lemma_all_n(t: Tokens<Lng>, n: nat)
    requires n <= t.walk().len()
    ensures forall|i: Import| #[trigger] all_n(t, n).contains(i) <==> (exists|j: int| 0 <= j < n && #[trigger] t.walk()[j] == i) || (exists|j: int| j < n && #[trigger] within_value(t, j, i)),
    decreases n
{
    if n > 0 {
        let m = (n - 1) as nat; let w = t.walk(); let l = w[n - 1];
        lemma_all_n(t, m);
        if l is Variable { axiom_height(&t, n - 1); }
        let p = all_n(t, m).push(l);
        let q = if l is Variable { all(l->Variable_0.value) } else { seq![] };
        assert(all_n(t, n) =~= p + q);
        assert forall|i: Import| #[trigger] all_n(t, n).contains(i) <==> (exists|j: int| 0 <= j < n && #[trigger] w[j] == i) || (exists|j: int| j < n && #[trigger] within_value(t, j, i)) by {
            if all_n(t, n).contains(i) {
                let k = choose|k: int| 0 <= k < (p + q).len() && (p + q)[k] == i;
                if k < m_len(t, m) { assert(all_n(t, m)[k] == i); assert(all_n(t, m).contains(i)); if exists|j: int| 0 <= j < m && #[trigger] w[j] == i { let j = choose|j: int| 0 <= j < m && #[trigger] w[j] == i; assert(w[j] == i); } }
                else if k == m_len(t, m) { assert(w[n - 1] == i); }
                else { assert(q[k - p.len()] == i); assert(within_value(t, n - 1, i)); }
            }
            if exists|j: int| 0 <= j < n && #[trigger] w[j] == i {
                let j = choose|j: int| 0 <= j < n && #[trigger] w[j] == i;
                if j < m { assert(all_n(t, m).contains(i)); let k = choose|k: int| 0 <= k < all_n(t, m).len() && all_n(t, m)[k] == i; assert((p + q)[k] == i); }
                else { assert((p + q)[m_len(t, m)] == i); }
            }
            if exists|j: int| j < n && #[trigger] within_value(t, j, i) {
                let j = choose|j: int| j < n && #[trigger] within_value(t, j, i);
                if j < m { assert(all_n(t, m).contains(i)); let k = choose|k: int| 0 <= k < all_n(t, m).len() && all_n(t, m)[k] == i; assert((p + q)[k] == i); }
                else { let k = choose|k: int| 0 <= k < q.len() && q[k] == i; assert((p + q)[p.len() + k] == i); }
            }
        }
    }
}
pub open spec fn m_len(t: Tokens<Lng>, m: nat) -> int { all_n(t, m).len() as int }
/// I05: the imports of a stream are those in it and those in the values of its variables, whatever the order
pub proof fn theorem_all(t: Tokens<Lng>)
    ensures forall|j: int| 0 <= j < t.walk().len() ==> all(t).contains(#[trigger] t.walk()[j]),
        forall|j: int, i: Import| #[trigger] within_value(t, j, i) ==> all(t).contains(i),
        forall|i: Import| #[trigger] all(t).contains(i) ==> t.walk().contains(i) || exists|j: int| #[trigger] within_value(t, j, i),
        forall|u: Tokens<Lng>| u.walk().to_set() == t.walk().to_set() ==> (#[trigger] all(u)).to_set() == all(t).to_set(),
{
    lemma_all_n(t, t.walk().len());
    assert forall|i: Import| #[trigger] all(t).contains(i) implies t.walk().contains(i) || exists|j: int| #[trigger] within_value(t, j, i) by { assert(all_n(t, t.walk().len()).contains(i)); }
    assert forall|j: int| 0 <= j < t.walk().len() implies all(t).contains(#[trigger] t.walk()[j]) by { assert(all_n(t, t.walk().len()).contains(t.walk()[j])); }
    assert forall|j: int, i: Import| #[trigger] within_value(t, j, i) implies all(t).contains(i) by { assert(all_n(t, t.walk().len()).contains(i)); }
    assert forall|u: Tokens<Lng>| u.walk().to_set() == t.walk().to_set() implies (#[trigger] all(u)).to_set() == all(t).to_set() by {
        lemma_all_n(u, u.walk().len());
        assert forall|i: Import| all(u).contains(i) implies all(t).contains(i) by { assert(all_n(u, u.walk().len()).contains(i)); lemma_same(u, t, i); }
        assert forall|i: Import| all(t).contains(i) implies all(u).contains(i) by { assert(all_n(t, t.walk().len()).contains(i)); lemma_same(t, u, i); assert(all_n(u, u.walk().len()).contains(i)); }
        assert(all(u).to_set() =~= all(t).to_set());
    }
}
pub proof fn lemma_same(u: Tokens<Lng>, t: Tokens<Lng>, i: Import)
    requires u.walk().to_set() == t.walk().to_set(), all(u).contains(i)
    ensures all(t).contains(i)
{
    lemma_all_n(u, u.walk().len()); lemma_all_n(t, t.walk().len());
    let (a, b) = (u.walk(), t.walk());
    assert(all_n(u, a.len()).contains(i));
    if exists|j: int| 0 <= j < a.len() && #[trigger] a[j] == i { let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j] == i; assert(a.to_set().contains(a[j])); assert(b.to_set().contains(a[j])); let k = choose|k: int| 0 <= k < b.len() && b[k] == a[j]; assert(b[k] == i); }
    else { let j = choose|j: int| j < a.len() && #[trigger] within_value(u, j, i); assert(a.to_set().contains(a[j])); assert(b.to_set().contains(a[j])); let k = choose|k: int| 0 <= k < b.len() && b[k] == a[j]; assert(within_value(t, k, i)); }
    assert(all_n(t, b.len()).contains(i));
}
pub open spec fn in_head(w: Seq<Import>, i: Import) -> bool {
    let (a, b, c, d) = (order(said(w, args_f())), order(said(w, withs_f())), order(said(w, inherits_f())), order(said(w, vars_f())));
    match i {
        Import::Argument(x) => a.contains(x.0.v()),
        Import::Inherit(x) => a.contains(first(x.path.v())) && c.contains((x.path.v(), x.name.v())),
        Import::Variable(x) => d.contains((x.name.v(), x.value)),
        Import::With(x) => a.contains(first(x.argument.v())) && b.contains(x.argument.v()),
    }
}
pub proof fn lemma_ordered<K>(w: Seq<Import>, f: spec_fn(Import) -> Set<K>)
    ensures order(said(w, f)).no_duplicates(), forall|k: K| #[trigger] order(said(w, f)).contains(k) <==> exists|i: int| 0 <= i < w.len() && f(#[trigger] w[i]).contains(k)
{
    lemma_said(w, f); let o = order(said(w, f));
    assert forall|k: K| #[trigger] o.contains(k) <==> exists|i: int| 0 <= i < w.len() && f(#[trigger] w[i]).contains(k) by { assert(o.contains(k) == o.to_set().contains(k)); assert(said(w, f).contains(k) <==> o.to_set().contains(k)); }
}
/// I05: everything that is used is an argument of the file, or bound from one, once; nothing else is; whatever the order
pub proof fn theorem_nix(w: Seq<Import>)
    ensures forall|i: int| 0 <= i < w.len() ==> in_head(w, #[trigger] w[i]),
        order(said(w, args_f())).no_duplicates(), order(said(w, withs_f())).no_duplicates(), order(said(w, inherits_f())).no_duplicates(), order(said(w, vars_f())).no_duplicates(),
        forall|k: N| #[trigger] order(said(w, args_f())).contains(k) ==> exists|i: int| 0 <= i < w.len() && arg(#[trigger] w[i]).contains(k),
        forall|k: N| #[trigger] order(said(w, withs_f())).contains(k) ==> exists|i: int| 0 <= i < w.len() && with_(#[trigger] w[i]).contains(k),
        forall|k: (N, N)| #[trigger] order(said(w, inherits_f())).contains(k) ==> exists|i: int| 0 <= i < w.len() && inherit_(#[trigger] w[i]).contains(k),
        forall|k: Var| #[trigger] order(said(w, vars_f())).contains(k) ==> exists|i: int| 0 <= i < w.len() && var_(#[trigger] w[i]).contains(k),
        forall|x: Seq<Import>, c: Config| x.to_set() == w.to_set() ==> #[trigger] file_head(c, x) == file_head(c, w),
{
    lemma_ordered(w, args_f()); lemma_ordered(w, withs_f()); lemma_ordered(w, inherits_f()); lemma_ordered(w, vars_f());
    let (a, b, c, d) = (order(said(w, args_f())), order(said(w, withs_f())), order(said(w, inherits_f())), order(said(w, vars_f())));
    assert forall|i: int| 0 <= i < w.len() implies in_head(w, #[trigger] w[i]) by {
        match w[i] {
            Import::Argument(x) => { assert(args_f()(w[i]).contains(x.0.v())); }
            Import::Inherit(x) => { assert(args_f()(w[i]).contains(first(x.path.v()))); assert(inherits_f()(w[i]).contains((x.path.v(), x.name.v()))); }
            Import::Variable(x) => { assert(vars_f()(w[i]).contains((x.name.v(), x.value))); }
            Import::With(x) => { assert(args_f()(w[i]).contains(first(x.argument.v()))); assert(withs_f()(w[i]).contains(x.argument.v())); }
        }
    }
    assert forall|k: N| #[trigger] a.contains(k) implies exists|i: int| 0 <= i < w.len() && arg(#[trigger] w[i]).contains(k) by { let i = choose|i: int| 0 <= i < w.len() && args_f()(#[trigger] w[i]).contains(k); assert(arg(w[i]).contains(k)); }
    assert forall|k: N| #[trigger] b.contains(k) implies exists|i: int| 0 <= i < w.len() && with_(#[trigger] w[i]).contains(k) by { let i = choose|i: int| 0 <= i < w.len() && withs_f()(#[trigger] w[i]).contains(k); assert(with_(w[i]).contains(k)); }
    assert forall|k: (N, N)| #[trigger] c.contains(k) implies exists|i: int| 0 <= i < w.len() && inherit_(#[trigger] w[i]).contains(k) by { let i = choose|i: int| 0 <= i < w.len() && inherits_f()(#[trigger] w[i]).contains(k); assert(inherit_(w[i]).contains(k)); }
    assert forall|k: Var| #[trigger] d.contains(k) implies exists|i: int| 0 <= i < w.len() && var_(#[trigger] w[i]).contains(k) by { let i = choose|i: int| 0 <= i < w.len() && vars_f()(#[trigger] w[i]).contains(k); assert(var_(w[i]).contains(k)); }
    assert forall|x: Seq<Import>, c: Config| x.to_set() == w.to_set() implies #[trigger] file_head(c, x) == file_head(c, w) by {
        lemma_said_order(x, w, args_f()); lemma_said_order(x, w, withs_f()); lemma_said_order(x, w, inherits_f()); lemma_said_order(x, w, vars_f());
    }
}
fn main() {}
}
