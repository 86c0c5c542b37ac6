@include imp_core.vrs
@type lang::dart::Import
@type lang::dart::Config
@type lang::dart::Format
@const lang::dart::SEP str
@const lang::dart::DART_CORE str
pub type LangItem = Import;
pub type LangConfig = Config;
pub type LangFormat = Format;
pub struct Dart;
pub type Fact = (Seq<char>, Option<Seq<char>>);
pub open spec fn core() -> Seq<char> { seq!['d', 'a', 'r', 't', ':', 'c', 'o', 'r', 'e'] }
/// core is imported without being asked for, unless the file imports it itself
pub open spec fn says() -> spec_fn(Import) -> Set<Fact> { |i: Import|
    if i.path.v() == core() {
        if i.alias is None { Set::<Fact>::empty() } else { Set::<Fact>::empty().insert((core(), None::<Seq<char>>)).insert((core(), i.alias.key())) }
    } else { Set::<Fact>::empty().insert((i.path.v(), i.alias.key())) }
}
/// import "path"; or import "path" as alias;
pub open spec fn line_of() -> spec_fn(Fact) -> Seq<Tk> { |f: Fact|
    match f.1 {
        Some(a) => tx("import") + sp() + seq![Tk::Q(f.0)] + sp() + tx("as") + sp() + chars(a) + tx(";"),
        None => tx("import") + sp() + seq![Tk::Q(f.0)] + tx(";"),
    }
}
pub open spec fn head(w: Seq<Import>) -> Seq<Seq<Tk>> { lines_of(said(w, says()), line_of()) }
impl Dart {
@fn lang::dart|Dart||imports reveal
    requires fresh_line(old(out).d()),
    ensures final(out).d() == d_block(old(out).d(), head(input.walk())),
@start
    let ghost w = input.walk();
    let ghost d0 = out.d();
    let ghost fs = said(w, says());
    let ghost ls = head(w);
    proof { assert(w.take(w.len() as int) =~= w); assert(ls.take(ls.len() as int) =~= ls); }
@loop 0 for import in input.walk_imports()
    invariant it0.iter.obeys_prophetic_iter_laws(), it0.iter.will_return_none(), it0.iter.decrease() is Some,
        it0.seq().len() == w.len(), forall|i: int| 0 <= i < w.len() ==> *(#[trigger] it0.seq()[i]) == w[i],
        modules.s() == said(w.take(it0.index()), says()),
        out.d() == d0,
@lstart 0
    proof {
        lemma_said_step(w, says(), it0.index()); let m = modules.s(); let i = w[it0.index()];
        assert(m.union(Set::<Fact>::empty()) =~= m);
        assert(m.union(Set::<Fact>::empty().insert((i.path.v(), i.alias.key()))) =~= m.insert((i.path.v(), i.alias.key())));
        assert(m.union(Set::<Fact>::empty().insert((core(), None::<Seq<char>>)).insert((core(), i.alias.key()))) =~= m.insert((core(), None::<Seq<char>>)).insert((core(), i.alias.key())));
    }
@loop 1 for (name, alias) in modules
    invariant it1.iter.obeys_prophetic_iter_laws(), it1.iter.will_return_none(), it1.iter.decrease() is Some,
        keyed(it1.seq(), order(fs)), ls == lines_of(fs, line_of()),
        fresh_line(out.d()), d_push(out.d()) == d_emits(d0, ls.take(it1.index())),
@lstart 1
    let ghost d1 = out.d();
    proof { lemma_emits_step(d0, ls, it1.index()); }
@lend 1
    proof {
        let k = order(fs)[it1.index()]; assert(it1.seq()[it1.index()].key() == k); assert(ls[it1.index()] == line_of()(k));
        assert(tx("import").len() > 0);
        let e = d_emit(d_push(d1), ls[it1.index()]); assert(out.d().cur =~= e.cur); assert(out.d().lines =~= e.lines);
    }
@end
@done
@fn lang::dart|Dart|Lang|format_file -> r reveal lang
    ensures r is Ok ==> exists|f: Format| final(out).t() == #[trigger] fmt_ev(fmt_ev(old(out).t(), d_block(d_empty(), head(tokens.walk())), f), tokens.d(), f),
@done
}
impl Format {
@fn lang::dart|Format|Default|default -> r
@done
}
/// how the code names an import: through the alias, if there is one
pub open spec fn reference(i: Import) -> Seq<char> { match i.alias { Some(a) => a.v() + seq!['.'] + i.name.v(), None => i.name.v() } }
impl Import {
@fn lang::dart|Import|LangItem<Dart>|format -> r reveal
    ensures r is Ok ==> final(out).t() == old(out).t() + evs(reference(*self)),
@end
    proof { if xt_ret is Ok { assert(out.t() =~= old(out).t() + evs(reference(*self))); } }
@done
@fn lang::dart|Import||with_alias -> r
    ensures r.path == self.path, r.name == self.name, r.alias is Some,
@done
}
@fn lang::dart|||import -> r
    ensures call_ensures(P::into, (path,), r.path), call_ensures(N::into, (name,), r.name), r.alias is None,
@done
/// I01: every path is imported under every alias used with it, once (core without an alias is imported unless it has an alias as well)
pub proof fn theorem_dart(w: Seq<Import>)
    ensures head(w).no_duplicates(),
        forall|i: int| 0 <= i < w.len() && !(w[i].path.v() == core() && w[i].alias is None) ==> head(w).contains(line_of()((#[trigger] w[i].path.v(), w[i].alias.key()))),
        forall|i: int| 0 <= i < w.len() && w[i].path.v() == core() && w[i].alias is Some ==> head(w).contains(line_of()((core(), None::<Seq<char>>))) && #[trigger] w[i] == w[i],
        forall|l: Seq<Tk>| #[trigger] head(w).contains(l) ==> exists|i: int, a: Option<Seq<char>>| 0 <= i < w.len() && line_of()((#[trigger] w[i].path.v(), a)) == l && (a is Some ==> a == w[i].alias.key()) && #[trigger] opt(a),
        forall|x: Seq<Import>| x.to_set() == w.to_set() ==> #[trigger] head(x) == head(w),
{
    reveal_strlit("import"); reveal_strlit("as"); reveal_strlit(";");
    assert forall|a: Fact, b: Fact| #[trigger] line_of()(a) == #[trigger] line_of()(b) implies a == b by {
        let x = line_of()(a); let y = line_of()(b);
        assert(x[7] == Tk::Q(a.0)); assert(y[7] == Tk::Q(b.0));
        match (a.1, b.1) {
            (Some(p), Some(q)) => { assert(x.subrange(12, x.len() - 1) =~= chars(p)); assert(y.subrange(12, y.len() - 1) =~= chars(q)); lemma_chars_eq(p, q); }
            (None, Some(q)) => { assert(x[8] == Tk::C(';')); assert(y[8] == Tk::C(' ')); }
            (Some(p), None) => { assert(y[8] == Tk::C(';')); assert(x[8] == Tk::C(' ')); }
            _ => {}
        }
    }
    lemma_lines(said(w, says()), line_of());
    lemma_said(w, says());
    assert forall|i: int| 0 <= i < w.len() && !(w[i].path.v() == core() && w[i].alias is None) implies head(w).contains(line_of()((#[trigger] w[i].path.v(), w[i].alias.key()))) by {
        let k = (w[i].path.v(), w[i].alias.key()); assert(says()(w[i]).contains(k)); assert(said(w, says()).contains(k));
    }
    assert forall|i: int| 0 <= i < w.len() && w[i].path.v() == core() && w[i].alias is Some implies head(w).contains(line_of()((core(), None::<Seq<char>>))) && #[trigger] w[i] == w[i] by {
        let k = (core(), None::<Seq<char>>); assert(says()(w[i]).contains(k)); assert(said(w, says()).contains(k));
    }
    assert forall|l: Seq<Tk>| #[trigger] head(w).contains(l) implies exists|i: int, a: Option<Seq<char>>| 0 <= i < w.len() && line_of()((#[trigger] w[i].path.v(), a)) == l && (a is Some ==> a == w[i].alias.key()) && #[trigger] opt(a) by {
        let k = choose|k: Fact| said(w, says()).contains(k) && #[trigger] line_of()(k) == l;
        let i = choose|i: int| 0 <= i < w.len() && says()(#[trigger] w[i]).contains(k);
        assert(k.0 == w[i].path.v()); assert(opt(k.1)); assert(k == (k.0, k.1));
    }
    assert forall|x: Seq<Import>| x.to_set() == w.to_set() implies #[trigger] head(x) == head(w) by { lemma_said_order(x, w, says()); }
}
pub open spec fn opt(a: Option<Seq<char>>) -> bool { true }
fn main() {}
}
