pub mod cellm {
use vstd::prelude::*;
/// Cell and RefCell, written as plain places (see DESIGN.md)
pub struct Cell<T> { pub v: T }
impl<T: Copy> Cell<T> {
    pub fn new(v: T) -> (r: Cell<T>) ensures r.v == v { Cell { v } }
    pub fn get(&self) -> (r: T) ensures r == self.v { self.v }
    pub fn set(&mut self, v: T) ensures final(self).v == v { self.v = v; }
}
pub struct RefCell<T> { pub v: T }
impl<T> RefCell<T> {
    pub fn new(v: T) -> (r: RefCell<T>) ensures r.v == v { RefCell { v } }
    pub fn into_inner(self) -> (r: T) ensures r == self.v { self.v }
}
}
use cellm::*;
pub trait WriteFmt { fn write_fmt(&mut self, a: FmtArgs) -> core::result::Result<(), ()>; }
impl WriteFmt for String {
    /// alloc: writing to a string appends and does not fail
    #[verifier::external_body]
    fn write_fmt(&mut self, a: FmtArgs) -> (r: core::result::Result<(), ()>) ensures r is Ok, final(self)@ == old(self)@ + a.text() { unimplemented!() }
}
@type m@string_parser::Options
@type m@string_parser::Encoder
@type m@string_parser::StringParser

// ---- what strings are made of ----
pub open spec fn blanks(n: nat) -> Seq<char> { Seq::new(n, |i: int| ' ') }
/// the space between where something ends and where something starts on the same line
pub open spec fn gap(at: Option<LineColumn>, from: Option<LineColumn>) -> Seq<char> {
    match (at, from) { (Some(a), Some(f)) => blanks(if f.column > a.column { (f.column - a.column) as nat } else { 0 }), _ => Seq::<char>::empty() }
}
pub open spec fn same_line(at: Option<LineColumn>, from: Option<LineColumn>) -> bool { match (at, from) { (Some(a), Some(f)) => a.line == f.line, _ => true } }
pub open spec fn open_eval(x: Ctxt) -> Code { append(x, item(x, "Item"@, "OpenEval"@)) }
pub open spec fn close_eval(x: Ctxt) -> Code { append(x, item(x, "Item"@, "CloseEval"@)) }
pub open spec fn lit_item(x: Ctxt, s: Seq<char>) -> Code { append(x, item(x, "Item"@, "Literal"@).push(paren(item(x, "ItemStr"@, "Static"@).push(paren(tk![Tk::S(s)]))))) }
pub open spec fn skip(x: Ctxt, o: Out, at: Option<LineColumn>, from: Option<LineColumn>) -> Out { run1(x, o, Op::Lit(gap(at, from))) }
/// something that starts at a place of the string: the space that stands before it, and then it
pub open spec fn piece(x: Ctxt, o: Out, at: Option<LineColumn>, from: LineColumn, p: Op) -> Out { run1(x, skip(x, o, at, Some(from)), p) }
impl<'a> Encoder<'a> {
    pub open spec fn out(&self) -> Out { (self.stream.v@, self.buf.v@) }
    pub open spec fn at(&self) -> Option<LineColumn> { self.cursor.v }
}
impl Options {
@fn m@string_parser|Options|Default|default -> r
    ensures !r.has_eval.v
@subst Default::default() => Cell::new(false)
@done
}
@fn m@string_parser|||adjust_start -> r
    requires start.column < usize::MAX
    ensures r.line == start.line, r.column == start.column + 1
@done
@fn m@string_parser|||adjust_end -> r
    ensures r.line == end.line, r.column == if end.column > 0 { end.column - 1 } else { 0 }
@done
impl<'a> Encoder<'a> {
@fn m@string_parser|Encoder||new -> r
    ensures r.cx == cx, r.out() == (Seq::<Tk>::empty(), Seq::<char>::empty()), r.at() == Some(cursor), !r.options.has_eval.v
@done
@fn m@string_parser|Encoder||flush_whitespace -> r
    ensures final(self).cx == old(self).cx, final(self).options == old(self).options,
        r is Ok <==> same_line(old(self).at(), from),
        r is Ok ==> final(self).at() == to && final(self).out() == skip(*old(self).cx, old(self).out(), old(self).at(), from)
@subst & self , => & mut self ,
@subst .borrow_mut() => .v
@loop 0 for _ in 0..
    invariant self.cx == old(self).cx, self.options == old(self).options, self.stream == old(self).stream, self.buf.v@ == old(self).buf.v@ + blanks(it0.index() as nat)
@lend 0
    proof { assert(blanks(it0.index() as nat + 1) =~= blanks(it0.index() as nat).push(' ')); }
@end
    proof { assert(blanks(0) =~= Seq::<char>::empty()); }
@done

@fn m@string_parser|Encoder||flush -> r
    ensures final(self).cx == old(self).cx, final(self).options == old(self).options,
        r is Ok <==> same_line(old(self).at(), from),
        r is Ok ==> final(self).at() == to && final(self).out() == run1(*old(self).cx, skip(*old(self).cx, old(self).out(), old(self).at(), from), Op::Code(tk![]))
@subst & self , => & mut self ,
@subst self . buf . borrow () => & self.buf.v
@subst .borrow_mut() => .v
@done
@fn m@string_parser|Encoder||encode_char -> r
    ensures final(self).cx == old(self).cx, final(self).options == old(self).options,
        r is Ok <==> same_line(old(self).at(), Some(from)),
        r is Ok ==> final(self).at() == Some(to) && final(self).out() == piece(*old(self).cx, old(self).out(), old(self).at(), from, Op::Lit(Seq::<char>::empty().push(c)))
@subst & self , => & mut self ,
@subst .borrow_mut() => .v
@done
@fn m@string_parser|Encoder||encode_str -> r
    ensures final(self).cx == old(self).cx, final(self).options == old(self).options,
        r is Ok <==> same_line(old(self).at(), Some(from)),
        r is Ok ==> final(self).at() == to && final(self).out() == piece(*old(self).cx, old(self).out(), old(self).at(), from, Op::Lit(s@))
@subst & self , => & mut self ,
@subst .borrow_mut() => .v
@done
@fn m@string_parser|Encoder||extend_tt -> r
    ensures final(self).cx == old(self).cx, final(self).options == old(self).options,
        r is Ok <==> same_line(old(self).at(), Some(from)),
        r is Ok ==> final(self).at() == to && final(self).out() == piece(*old(self).cx, old(self).out(), old(self).at(), from, Op::Lit(tt.text()))
@subst & self , => & mut self ,
@subst .borrow_mut() => .v
@done
@fn m@string_parser|Encoder||eval_ident -> r
    ensures final(self).cx == old(self).cx,
        r is Ok <==> same_line(old(self).at(), Some(from)),
        r is Ok ==> final(self).options.has_eval.v && final(self).at() == to
            && final(self).out() == piece(*old(self).cx, old(self).out(), old(self).at(), from, Op::Code(open_eval(*old(self).cx) + lit_item(*old(self).cx, ident.name()) + close_eval(*old(self).cx)))
@subst & self , => & mut self ,
@subst .borrow_mut() => .v
@done
@fn m@string_parser|Encoder||eval_stream -> r
    ensures final(self).cx == old(self).cx,
        r is Ok <==> same_line(old(self).at(), Some(from)),
        r is Ok ==> final(self).options.has_eval.v && final(self).at() == to
            && final(self).out() == piece(*old(self).cx, old(self).out(), old(self).at(), from, Op::Code(open_eval(*old(self).cx) + expr@ + close_eval(*old(self).cx)))
@subst & self , => & mut self ,
@subst .borrow_mut() => .v
@done
@fn m@string_parser|Encoder||raw_expr -> r
    ensures final(self).cx == old(self).cx, final(self).options == old(self).options,
        r is Ok <==> same_line(old(self).at(), Some(from)),
        r is Ok ==> final(self).at() == to
            && final(self).out() == piece(*old(self).cx, old(self).out(), old(self).at(), from, Op::Code(append(*old(self).cx, expr.code())))
@subst & self , => & mut self ,
@subst .borrow_mut() => .v
@done
@fn m@string_parser|Encoder||finalize -> r
    ensures r is Ok <==> same_line(self.at(), Some(end)),
        r is Ok ==> r->Ok_0.0 == self.options && r->Ok_0.1@ == piece(*self.cx, self.out(), self.at(), end, Op::Code(tk![])).0
@subst self . => me.
@start
    let mut me = self;
@done
}
impl<'a> StringParser<'a> {
@fn m@string_parser|StringParser||new -> r
    ensures r is Ok, r->Ok_0.cx == cx, r->Ok_0.buf == buf, r->Ok_0.span == span, r->Ok_0.start == (LineColumn { line: starts(span).line, column: (starts(span).column + 1) as usize }),
        r->Ok_0.end == (LineColumn { line: ends(span).line, column: if ends(span).column > 0 { (ends(span).column - 1) as usize } else { 0 } })
@start
    broadcast use axiom_column;
@done
}
