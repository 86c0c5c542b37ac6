@include enc_core.vrs
// ---- what it comes to for a whole quote ----
/// items stand in the order of the source, none before `start`, none after `end`
pub open spec fn in_order(c: Seq<Cursor>, start: Option<LineColumn>, end: Option<LineColumn>) -> bool {
    &&& start is Some && c.len() > 0 ==> start->0.line <= c[0].start.line
    &&& end is Some && c.len() > 0 ==> c.last().end.line <= end->0.line
    &&& end is Some && start is Some ==> start->0.line <= end->0.line
    &&& forall|i: int| 1 <= i < c.len() ==> (#[trigger] c[i - 1]).end.line <= c[i].start.line
}
pub struct Lay { pub ops: Seq<Op>, pub levels: Seq<nat>, pub at: Option<LineColumn>, pub first: bool }
/// the first n items
pub open spec fn lay(x: Ctxt, c: Seq<Cursor>, a: Seq<Ast>, n: nat, start: Option<LineColumn>) -> Option<Lay> decreases n {
    if n == 0 { Some(Lay { ops: Seq::empty(), levels: match start { Some(s) => Seq::<nat>::empty().push(s.column as nat), None => Seq::<nat>::empty() }, at: start, first: true }) }
    else {
        match lay(x, c, a, (n - 1) as nat, start) {
            None => None,
            Some(p) => match go(x, p.levels, p.at, p.first, c[n - 1].start) {
                None => None,
                Some((ops, l)) => Some(Lay { ops: p.ops + ops.push(op_of(x, a[n - 1])), levels: l, at: Some(c[n - 1].end), first: false }),
            },
        }
    }
}
pub open spec fn lay_all(x: Ctxt, c: Seq<Cursor>, a: Seq<Ast>, start: Option<LineColumn>, end: Option<LineColumn>) -> Option<Seq<Op>> {
    match lay(x, c, a, c.len(), start) { None => None, Some(p) => match fin(x, p.levels, p.at, end) { None => None, Some(ops) => Some(p.ops + ops) } }
}
pub open spec fn any_eval(a: Seq<Ast>) -> bool { exists|i: int| 0 <= i < a.len() && evals(#[trigger] a[i]) }
/// Encoding the items of a quote one after another writes code for exactly what `lay_all` says, and is refused
/// exactly if that is None.
pub fn theorem_quote(x: &Ctxt, start: Option<LineColumn>, end: Option<LineColumn>, cs: Vec<Cursor>, asts: Vec<Ast>) -> (r: Result<(Requirements, TokenStream)>)
    requires in_order(cs@, start, end), cs@.len() == asts@.len()
    ensures match lay_all(*x, cs@, asts@, start, end) {
        Some(ops) => r is Ok && (r->Ok_0.1@, Seq::<char>::empty()) == run(*x, (Seq::<Tk>::empty(), Seq::<char>::empty()), ops) && r->Ok_0.0.lang_supports_eval == any_eval(asts@),
        None => r is Err,
    }
{
    let ghost a0 = asts@; let ghost o0: Out = (Seq::<Tk>::empty(), Seq::<char>::empty());
    let mut e = Encoder::new(x, start, end);
    let mut i: usize = 0;
    let mut rest = asts;
    let n = cs.len();
    proof { lemma_run_0(*x, o0); if start is Some { assert(e.levels() =~= Seq::<nat>::empty().push(start->0.column as nat)); } else { assert(e.levels() =~= Seq::<nat>::empty()); } }
    proof { lemma_lay_none(*x, cs@, a0, start); }
    while i < n
        invariant
            a0 == asts@, n == cs@.len(), i <= n, rest@ == a0.skip(i as int), a0.len() == n, in_order(cs@, start, end), e.inv(), e.cx == x, e.span_end == end,
            forall|k: nat, m: nat| k <= m && #[trigger] lay(*x, cs@, a0, k, start) is None ==> #[trigger] lay(*x, cs@, a0, m, start) is None,
            e.at() == (if i == 0 { start } else { Some(cs@[i - 1].end) }), e.fresh() == (i == 0),
            e.requirements.lang_supports_eval == any_eval(a0.take(i as int)),
            match lay(*x, cs@, a0, i as nat, start) { Some(p) => p.levels == e.levels() && p.at == e.at() && p.first == e.fresh() && e.out() == run(*x, o0, p.ops), None => false },
        decreases n - i
    {
        let c = cs[i];
        let a = rest.remove(0);
        proof {
            assert(a == a0[i as int]); assert(rest@ =~= a0.skip(i as int + 1));
            assert(a0.take(i as int + 1) =~= a0.take(i as int).push(a));
            let t = a0.take(i as int); let u = t.push(a);
            assert(any_eval(u) == (any_eval(t) || evals(a))) by {
                if any_eval(t) { let k = choose|k: int| 0 <= k < t.len() && evals(#[trigger] t[k]); assert(u[k] == t[k]); }
                if evals(a) { assert(u[t.len() as int] == a); }
                if any_eval(u) { let k = choose|k: int| 0 <= k < u.len() && evals(#[trigger] u[k]); if k < t.len() { assert(t[k] == u[k]); } }
            }
            let p = lay(*x, cs@, a0, i as nat, start)->0;
            if go(*x, p.levels, p.at, p.first, c.start) is Some {
                let g = go(*x, p.levels, p.at, p.first, c.start)->0;
                lemma_run_cat(*x, o0, p.ops, g.0.push(op_of(*x, a)));
            } else { assert(lay(*x, cs@, a0, (i + 1) as nat, start) is None); }
            if i > 0 { assert(cs@[i as int - 1].end.line <= cs@[i as int].start.line); }
        }
        match e.encode(c, a) { Ok(()) => {}, Err(err) => {
            proof { assert(lay(*x, cs@, a0, (i + 1) as nat, start) is None); assert(lay(*x, cs@, a0, cs@.len(), start) is None); assert(asts@ == a0); assert(lay_all(*x, cs@, asts@, start, end) is None); }
            return Err(err);
        } }
        i += 1;
    }
    proof {
        assert(a0.take(n as int) =~= a0);
        let p = lay(*x, cs@, a0, n as nat, start)->0;
        if fin(*x, p.levels, p.at, end) is Some { lemma_run_cat(*x, o0, p.ops, fin(*x, p.levels, p.at, end)->0); }
    }
    e.into_output()
}
pub proof fn lemma_lay_none(x: Ctxt, c: Seq<Cursor>, a: Seq<Ast>, start: Option<LineColumn>)
    ensures forall|k: nat, m: nat| k <= m && #[trigger] lay(x, c, a, k, start) is None ==> #[trigger] lay(x, c, a, m, start) is None
{
    assert forall|k: nat, m: nat| k <= m && #[trigger] lay(x, c, a, k, start) is None implies #[trigger] lay(x, c, a, m, start) is None by { lemma_lay_none1(x, c, a, start, k, m); }
}
pub proof fn lemma_lay_none1(x: Ctxt, c: Seq<Cursor>, a: Seq<Ast>, start: Option<LineColumn>, k: nat, m: nat)
    requires k <= m, lay(x, c, a, k, start) is None ensures lay(x, c, a, m, start) is None decreases m
{ if k < m { lemma_lay_none1(x, c, a, start, k, (m - 1) as nat); } }

/// the kinds of whitespace
pub enum W { Space, Push, Line, In, Out, Nothing }
pub open spec fn w_op(x: Ctxt, w: W) -> Op {
    match w { W::Space => op_space(x), W::Push => op_push(x), W::Line => op_line(x), W::In => op_indent(x), W::Out => op_unindent(x), W::Nothing => Op::Code(tk![]) }
}
pub open spec fn w_ops(x: Ctxt, w: Seq<W>) -> Seq<Op> decreases w.len() { if w.len() == 0 { Seq::empty() } else { w_ops(x, w.drop_last()).push(w_op(x, w.last())) } }
pub open spec fn w_outs(k: nat, blank: bool) -> Seq<W> decreases k {
    if k == 0 { Seq::empty() } else if blank { w_outs((k - 1) as nat, blank).push(W::Out).push(W::Line) } else { w_outs((k - 1) as nat, blank).push(W::Out) }
}
/// levels of indentation gained
pub open spec fn net(w: Seq<W>) -> int decreases w.len() { if w.len() == 0 { 0 } else { net(w.drop_last()) + (match w.last() { W::In => 1int, W::Out => -1, _ => 0 }) } }
pub proof fn lemma_w_push(x: Ctxt, w: Seq<W>, v: W)
    ensures w_ops(x, w.push(v)) == w_ops(x, w).push(w_op(x, v)), net(w.push(v)) == net(w) + (match v { W::In => 1int, W::Out => -1, _ => 0 })
{ assert(w.push(v).drop_last() =~= w); }
pub proof fn lemma_w_outs(x: Ctxt, k: nat, blank: bool)
    ensures w_ops(x, w_outs(k, blank)) == outs(x, k, blank), net(w_outs(k, blank)) == -k, k > 0 ==> blank == w_outs(k, blank).contains(W::Line), !w_outs(k, blank).contains(W::Space), !w_outs(k, blank).contains(W::In), !w_outs(k, blank).contains(W::Push)
    decreases k
{
    if k > 0 {
        lemma_w_outs(x, (k - 1) as nat, blank);
        let p = w_outs((k - 1) as nat, blank); let q = p.push(W::Out);
        lemma_w_push(x, p, W::Out); lemma_w_push(x, q, W::Line);
        assert(forall|w: W| #[trigger] q.contains(w) ==> p.contains(w) || w == W::Out) by { assert forall|w: W| #[trigger] q.contains(w) implies p.contains(w) || w == W::Out by { let i = choose|i: int| 0 <= i < q.len() && q[i] == w; if i < p.len() { assert(p[i] == w); } } }
        let t = q.push(W::Line);
        assert(forall|w: W| #[trigger] t.contains(w) ==> q.contains(w) || w == W::Line) by { assert forall|w: W| #[trigger] t.contains(w) implies q.contains(w) || w == W::Line by { let i = choose|i: int| 0 <= i < t.len() && t[i] == w; if i < q.len() { assert(q[i] == w); } } }
        if blank { assert(t[t.len() - 1] == W::Line); }
        else { if q.contains(W::Line) { } if k > 1 { assert(!p.contains(W::Line)); } else { assert(p =~= Seq::<W>::empty()); } }
    }
}
/// M01, whitespace: what stands between two items is decided by where they are
pub proof fn theorem_ws(x: Ctxt, l: Seq<nat>, lone: bool, from: LineColumn, to: LineColumn)
    requires rising(l), l.len() > 0, from.line <= to.line
    ensures match ws(x, l, lone, from, to) {
        Some((ops, m)) => exists|w: Seq<W>| {
            &&& ops == #[trigger] w_ops(x, w)
            // one level per column, the current one last
            &&& rising(m) && m.len() > 0 && net(w) == m.len() - l.len()
            // on one line: a space if there is a gap, else nothing
            &&& from.line == to.line ==> m == l && w == (if from.column < to.column { Seq::<W>::empty().push(W::Space) } else { Seq::<W>::empty() })
            // on another line: the level of its column
            &&& from.line < to.line ==> m.last() == to.column && !w.contains(W::Space)
            // nothing else for a new line at the same level
            &&& from.line < to.line && l.last() == to.column ==> w == Seq::<W>::empty().push(if to.line - from.line > 1 { W::Line } else { W::Push })
            // deeper: one level
            &&& from.line < to.line && l.last() < to.column ==> m == l.push(to.column as nat) && net(w) == 1
            // shallower: a level that was there
            &&& from.line < to.line && l.last() > to.column && !(lone && l.len() == 1) ==> m == l.take(m.len() as int) && net(w) < 0
            // an empty line is kept
            &&& from.line < to.line && !(lone && l.len() == 1 && l.last() > to.column) ==> (w.contains(W::Line) <==> to.line - from.line > 1)
        },
        // refused: shallower, and not the column of any level
        None => from.line < to.line && l.last() > to.column && !l.contains(to.column as nat),
    }
{
    lemma_ws_rising(x, l, lone, from, to);
    lemma_level(l.drop_last(), to.column as nat);
    let blank = to.line - from.line > 1;
    let e = Seq::<W>::empty();
    assert(w_ops(x, e) == Seq::<Op>::empty());
    match ws(x, l, lone, from, to) {
        Some((ops, m)) => {
            let w = if from.line == to.line { if from.column < to.column { e.push(W::Space) } else { e } }
                else if l.last() < to.column { if blank { e.push(W::In).push(W::Line) } else { e.push(W::In) } }
                else if l.last() == to.column { e.push(if blank { W::Line } else { W::Push }) }
                else if level(l.drop_last(), to.column as nat) is Some { w_outs((l.len() - 1 - level(l.drop_last(), to.column as nat)->0) as nat, blank) }
                else { e.push(W::Nothing) };
            lemma_w_push(x, e, W::Space); lemma_w_push(x, e, W::In); lemma_w_push(x, e.push(W::In), W::Line); lemma_w_push(x, e, W::Line); lemma_w_push(x, e, W::Push); lemma_w_push(x, e, W::Nothing);
            if level(l.drop_last(), to.column as nat) is Some { lemma_w_outs(x, (l.len() - 1 - level(l.drop_last(), to.column as nat)->0) as nat, blank); }
            assert(e.push(W::In).push(W::Line)[1] == W::Line); assert(e.push(W::Line)[0] == W::Line);
            assert(ops == w_ops(x, w));
        }
        None => {
            if l.contains(to.column as nat) { let i = choose|i: int| 0 <= i < l.len() && l[i] == to.column; if i < l.len() - 1 { assert(l.drop_last()[i] == to.column); } }
        }
    }
}
} // verus!
fn main() {}
