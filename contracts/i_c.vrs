@include imp_core.vrs
@type lang::c::Import
@type lang::c::Config
@type lang::c::Format
pub type LangItem = Import;
pub type LangConfig = Config;
pub type LangFormat = Format;
pub struct C;
pub type Fact = (Seq<char>, bool);
pub open spec fn fact(i: Import) -> Fact { (i.path.v(), i.system) }
pub open spec fn fact_of() -> spec_fn(Import) -> Fact { |i: Import| fact(i) }
pub open spec fn head(w: Seq<Import>) -> Seq<Seq<Tk>> { header(w, fact_of(), line_of()) }
/// #include <path> or #include "path"
pub open spec fn line_of() -> spec_fn(Fact) -> Seq<Tk> { |f: Fact|
    if f.1 { tx("#include") + sp() + tx("<") + chars(f.0) + tx(">") } else { tx("#include") + sp() + seq![Tk::Q(f.0)] }
}
impl C {
@fn lang::c|C||imports reveal
    requires fresh_line(old(out).d()),
    ensures final(out).d() == d_block(old(out).d(), head(tokens.walk())),
@start
    let ghost w = tokens.walk();
    let ghost d0 = out.d();
    let ghost fs = w.map_values(fact_of()).to_set();
    let ghost ls = head(w);
    proof { assert(w.take(w.len() as int) =~= w); assert(ls.take(ls.len() as int) =~= ls); }
@loop 0 for include in tokens.walk_imports()
    invariant it0.iter.obeys_prophetic_iter_laws(), it0.iter.will_return_none(), it0.iter.decrease() is Some,
        it0.seq().len() == w.len(), forall|i: int| 0 <= i < w.len() ==> *(#[trigger] it0.seq()[i]) == w[i],
        includes.s() == w.take(it0.index()).map_values(fact_of()).to_set(),
        out.d() == d0,
@lstart 0
    proof { lemma_facts_step(w, fact_of(), it0.index()); }
@loop 1 for (file, system_header) in includes
    invariant it1.iter.obeys_prophetic_iter_laws(), it1.iter.will_return_none(), it1.iter.decrease() is Some,
        keyed(it1.seq(), order(fs)), ls == lines_of(fs, line_of()),
        fresh_line(out.d()), d_push(out.d()) == d_emits(d0, ls.take(it1.index())),
@lstart 1
    let ghost d1 = out.d();
    proof { lemma_emits_step(d0, ls, it1.index()); }
@lend 1
    proof { assert(order(fs)[it1.index()] == (file.v(), system_header)); assert(ls[it1.index()] == line_of()((file.v(), system_header))); let e = d_emit(d_push(d1), ls[it1.index()]); assert(ls[it1.index()].len() > 0); assert(tx("#include").len() > 0); assert(out.d().cur =~= e.cur); assert(out.d().lines =~= e.lines); }
@end
@done
@fn lang::c|C|Lang|format_file -> r reveal lang
    ensures r is Ok ==> exists|f: Format| final(out).t() == #[trigger] fmt_ev(fmt_ev(old(out).t(), d_block(d_empty(), head(tokens.walk())), f), tokens.d(), f),
@done
}
impl Format {
@fn lang::c|Format|Default|default -> r
@done
}
impl Import {
@fn lang::c|Import|LangItem<C>|format -> r reveal
    ensures r is Ok ==> final(out).t() == old(out).t() + evs(self.item.v()),
@done
}
@fn lang::c|||include -> r
    ensures call_ensures(M::into, (path,), r.path), call_ensures(N::into, (item,), r.item), !r.system,
@done
@fn lang::c|||include_system -> r
    ensures call_ensures(M::into, (path,), r.path), call_ensures(N::into, (item,), r.item), r.system,
@done
/// I01: every included item has its include, once, whatever the order of the imports
pub proof fn theorem_c(w: Seq<Import>)
    ensures head(w).no_duplicates(),
        forall|i: int| 0 <= i < w.len() ==> head(w).contains(line_of()(fact(#[trigger] w[i]))),
        forall|l: Seq<Tk>| #[trigger] head(w).contains(l) ==> exists|i: int| 0 <= i < w.len() && line_of()(fact(#[trigger] w[i])) == l,
        forall|x: Seq<Import>| x.to_set() == w.to_set() ==> #[trigger] head(x) == head(w),
{
    reveal_strlit("#include"); reveal_strlit("<"); reveal_strlit(">");
    assert forall|a: Fact, b: Fact| #[trigger] line_of()(a) == #[trigger] line_of()(b) implies a == b by {
        let x = line_of()(a); let y = line_of()(b);
        assert(x[9] == if a.1 { Tk::C('<') } else { Tk::Q(a.0) }); assert(y[9] == if b.1 { Tk::C('<') } else { Tk::Q(b.0) });
        if a.1 && b.1 {
            assert(x.subrange(10, x.len() - 1) =~= chars(a.0)); assert(y.subrange(10, y.len() - 1) =~= chars(b.0));
            lemma_chars_eq(a.0, b.0);
        }
    }
    theorem_header(w, fact_of(), line_of());
    assert forall|x: Seq<Import>| x.to_set() == w.to_set() implies #[trigger] head(x) == head(w) by { theorem_order(x, w, fact_of(), line_of()); }
}
fn main() {}
}