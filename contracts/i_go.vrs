@include imp_core.vrs
@type lang::go::Import
@type lang::go::Config
@type lang::go::Format
@const lang::go::SEP str
@const lang::go::MODULE_SEP str
pub type LangItem = Import;
pub type LangConfig = Config;
pub type LangFormat = Format;
pub struct Go;
pub type Fact = Seq<char>;
pub open spec fn fact(i: Import) -> Fact { i.module.v() }
pub open spec fn fact_of() -> spec_fn(Import) -> Fact { |i: Import| fact(i) }
/// import "path"
pub open spec fn line_of() -> spec_fn(Fact) -> Seq<Tk> { |f: Fact| tx("import") + sp() + seq![Tk::Q(f)] }
pub open spec fn head(w: Seq<Import>) -> Seq<Seq<Tk>> { header(w, fact_of(), line_of()) }
/// package name, an empty line, and the imports
pub open spec fn file_head(config: Config, w: Seq<Import>) -> Doc {
    d_block(match config.package { Some(p) => d_line(d_text(d_space(d_text(d_empty(), tx("package"))), chars(p.v()))), None => d_empty() }, head(w))
}
impl Go {
@fn lang::go|Go||imports reveal
    requires fresh_line(old(out).d()),
    ensures final(out).d() == d_block(old(out).d(), head(tokens.walk())),
@start
    let ghost w = tokens.walk();
    let ghost d0 = out.d();
    let ghost fs = w.map_values(fact_of()).to_set();
    let ghost ls = head(w);
    proof { assert(w.take(w.len() as int) =~= w); assert(ls.take(ls.len() as int) =~= ls); }
@loop 0 for import in tokens.walk_imports()
    invariant it0.iter.obeys_prophetic_iter_laws(), it0.iter.will_return_none(), it0.iter.decrease() is Some,
        it0.seq().len() == w.len(), forall|i: int| 0 <= i < w.len() ==> *(#[trigger] it0.seq()[i]) == w[i],
        modules.s() == w.take(it0.index()).map_values(fact_of()).to_set(),
        out.d() == d0,
@lstart 0
    proof { lemma_facts_step(w, fact_of(), it0.index()); }
@loop 1 for module in modules
    invariant it1.iter.obeys_prophetic_iter_laws(), it1.iter.will_return_none(), it1.iter.decrease() is Some,
        keyed(it1.seq(), order(fs)), ls == lines_of(fs, line_of()),
        fresh_line(out.d()), d_push(out.d()) == d_emits(d0, ls.take(it1.index())),
@lstart 1
    let ghost d1 = out.d();
    proof { lemma_emits_step(d0, ls, it1.index()); }
@lend 1
    proof {
        let k = order(fs)[it1.index()]; assert(it1.seq()[it1.index()].key() == k); assert(ls[it1.index()] == line_of()(k));
        assert(tx("import").len() > 0);
        let e = d_emit(d_push(d1), ls[it1.index()]); assert(out.d().cur =~= e.cur); assert(out.d().lines =~= e.lines);
    }
@end
@done
@fn lang::go|Go|Lang|format_file -> r reveal lang
    ensures r is Ok ==> exists|h: Doc, f: Format| final(out).t() == #[trigger] fmt_ev(fmt_ev(old(out).t(), h, f), tokens.d(), f) && h == file_head(*config, tokens.walk()),
@done
}
impl Format {
@fn lang::go|Format|Default|default -> r
@done
}
impl Config {
@fn lang::go|Config||with_package -> r
    ensures r.package is Some, call_ensures(P::into, (package,), r.package.unwrap()),
@done
}
/// the name by which go code refers to the package of a module: its last path element
pub open spec fn is_reference(i: Import, t: Seq<char>) -> bool {
    exists|p: Seq<char>| #[trigger] after_last(i.module.v(), seq!['/'], p) && t == p + seq!['.'] + i.name.v()
}
impl Import {
@fn lang::go|Import|LangItem<Go>|format -> r reveal
    ensures r is Ok ==> exists|t: Seq<char>| #[trigger] is_reference(*self, t) && final(out).t() == old(out).t() + evs(t),
@end
    proof { if xt_ret is Ok {
        let p = choose|p: Seq<char>| #[trigger] after_last(self.module.v(), seq!['/'], p) && out.t() == old(out).t() + evs(p) + evs(seq!['.']) + evs(self.name.v());
        let t = p + seq!['.'] + self.name.v();
        assert(is_reference(*self, t)); assert(out.t() =~= old(out).t() + evs(t));
    } }
@done
}
@fn lang::go|||import -> r
    ensures call_ensures(M::into, (module,), r.module), call_ensures(N::into, (name,), r.name),
@done
/// I01: every referenced package is imported, once, whatever the order of the imports
pub proof fn theorem_go(w: Seq<Import>)
    ensures head(w).no_duplicates(),
        forall|i: int| 0 <= i < w.len() ==> head(w).contains(line_of()(fact(#[trigger] w[i]))),
        forall|l: Seq<Tk>| #[trigger] head(w).contains(l) ==> exists|i: int| 0 <= i < w.len() && line_of()(fact(#[trigger] w[i])) == l,
        forall|x: Seq<Import>| x.to_set() == w.to_set() ==> #[trigger] head(x) == head(w),
{
    assert forall|a: Fact, b: Fact| #[trigger] line_of()(a) == #[trigger] line_of()(b) implies a == b by {
        assert(line_of()(a).last() == Tk::Q(a)); assert(line_of()(b).last() == Tk::Q(b));
    }
    theorem_header(w, fact_of(), line_of());
    assert forall|x: Seq<Import>| x.to_set() == w.to_set() implies #[trigger] head(x) == head(w) by { theorem_order(x, w, fact_of(), line_of()); }
}
fn main() {}
}
