@include imp_core.vrs
@type lang::swift::Import
@type lang::swift::Config
@type lang::swift::Format
pub type LangItem = Import;
pub type LangConfig = Config;
pub type LangFormat = Format;
pub struct Swift;
pub type Fact = Seq<char>;
pub open spec fn fact(i: Import) -> Fact { i.module.v() }
pub open spec fn fact_of() -> spec_fn(Import) -> Fact { |i: Import| fact(i) }
/// import Module
pub open spec fn line_of() -> spec_fn(Fact) -> Seq<Tk> { |f: Fact| if f.len() == 0 { tx("import") } else { tx("import") + sp() + chars(f) } }
pub open spec fn head(w: Seq<Import>) -> Seq<Seq<Tk>> { header(w, fact_of(), line_of()) }
/// modules have a name
pub open spec fn named(w: Seq<Import>) -> bool { forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).module.v().len() > 0 }
impl Swift {
@fn lang::swift|Swift||imports reveal
    requires old(out).d().ind == 0, named(tokens.walk()),
    ensures head(tokens.walk()).len() > 0 ==> final(out).d() == d_block(old(out).d(), head(tokens.walk())),
        head(tokens.walk()).len() == 0 ==> final(out).d() == old(out).d() || final(out).d() == d_line(old(out).d()),
@start
    let ghost w = tokens.walk();
    let ghost d0 = out.d();
    let ghost fs = w.map_values(fact_of()).to_set();
    let ghost ls = head(w);
    proof { assert(w.take(w.len() as int) =~= w); assert(ls.take(ls.len() as int) =~= ls); }
@loop 0 for import in tokens.walk_imports()
    invariant it0.iter.obeys_prophetic_iter_laws(), it0.iter.will_return_none(), it0.iter.decrease() is Some,
        it0.seq().len() == w.len(), forall|i: int| 0 <= i < w.len() ==> *(#[trigger] it0.seq()[i]) == w[i],
        modules.s() == w.take(it0.index()).map_values(fact_of()).to_set(),
        out.d() == d0,
@lstart 0
    proof { lemma_facts_step(w, fact_of(), it0.index()); }
@loop 1 for module in modules
    invariant it1.iter.obeys_prophetic_iter_laws(), it1.iter.will_return_none(), it1.iter.decrease() is Some,
        keyed(it1.seq(), order(fs)), ls == lines_of(fs, line_of()),
        out.d().ind == 0, named(w), fs == w.map_values(fact_of()).to_set(), it1.index() == 0 ==> out.d() == d0, d_push(out.d()) == d_emits(d0, ls.take(it1.index())),
@lstart 1
    let ghost d1 = out.d();
    proof { lemma_emits_step(d0, ls, it1.index()); }
@lend 1
    proof {
        let k = order(fs)[it1.index()];
        assert(order(fs).to_set().contains(k)); let j = choose|j: int| 0 <= j < w.len() && w.map_values(fact_of())[j] == k; assert(w[j].module.v() == k); assert(it1.seq()[it1.index()].key() == k); assert(ls[it1.index()] == line_of()(k));
        assert(tx("import").len() > 0);
        let e = d_emit(d_push(d1), ls[it1.index()]); let o = d_push(out.d()); assert(o.cur =~= e.cur); assert(o.lines =~= e.lines);
    }
@end
@done
@fn lang::swift|Swift|Lang|format_file -> r reveal lang
    requires named(tokens.walk()),
    ensures r is Ok ==> exists|h: Doc, f: Format| final(out).t() == #[trigger] fmt_ev(fmt_ev(old(out).t(), h, f), tokens.d(), f) &&
        if head(tokens.walk()).len() > 0 { h == d_block(d_empty(), head(tokens.walk())) } else { h == d_empty() || h == d_line(d_empty()) },
@done
}
impl Format {
@fn lang::swift|Format|Default|default -> r
@done
}
impl Import {
@fn lang::swift|Import|LangItem<Swift>|format -> r reveal
    ensures r is Ok ==> final(out).t() == old(out).t() + evs(self.name.v()),
@done
}
@fn lang::swift|||import -> r
    ensures call_ensures(M::into, (module,), r.module), call_ensures(N::into, (name,), r.name),
@done
/// I01: every referenced package is imported, once, whatever the order of the imports
pub proof fn theorem_swift(w: Seq<Import>)
    ensures head(w).no_duplicates(),
        forall|i: int| 0 <= i < w.len() ==> head(w).contains(line_of()(fact(#[trigger] w[i]))),
        forall|l: Seq<Tk>| #[trigger] head(w).contains(l) ==> exists|i: int| 0 <= i < w.len() && line_of()(fact(#[trigger] w[i])) == l,
        forall|x: Seq<Import>| x.to_set() == w.to_set() ==> #[trigger] head(x) == head(w),
{
    assert forall|a: Fact, b: Fact| #[trigger] line_of()(a) == #[trigger] line_of()(b) implies a == b by {
        reveal_strlit("import"); let x = line_of()(a); let y = line_of()(b);
        if a.len() > 0 && b.len() > 0 { assert(x.skip(7) =~= chars(a)); assert(y.skip(7) =~= chars(b)); lemma_chars_eq(a, b); }
        else { assert(a =~= b); }
    }
    theorem_header(w, fact_of(), line_of());
    assert forall|x: Seq<Import>| x.to_set() == w.to_set() implies #[trigger] head(x) == head(w) by { theorem_order(x, w, fact_of(), line_of()); }
}
fn main() {}
}
