// ---- the text of a header while it is built (unit doc: what the real operations do to it) ----
/// one unit of text: a character, a quoted string, the indentation at the start of a line
pub enum Tk { C(char), Q(Seq<char>), Ind(int) }
/// lines and the line so far; what is pending: line breaks, a space, the indentation; the indentation of the last text; whether empty text came while something was pending, or first
pub struct Doc { pub lines: Seq<Seq<Tk>>, pub cur: Seq<Tk>, pub pend: nat, pub sp: bool, pub ind: int, pub base: int, pub held: bool }
/// in the middle of a line
pub open spec fn within(d: Doc) -> bool { d.cur.len() > 0 && d.pend == 0 }
/// more layout after empty text that came while layout was pending: not described
pub uninterp spec fn d_void(d: Doc) -> Doc;
pub open spec fn chars(s: Seq<char>) -> Seq<Tk> { s.map_values(|c: char| Tk::C(c)) }
pub open spec fn sp() -> Seq<Tk> { seq![Tk::C(' ')] }
pub open spec fn tx(s: &str) -> Seq<Tk> { chars(s@) }
pub open spec fn d_text(d: Doc, t: Seq<Tk>) -> Doc {
    if t.len() == 0 { Doc { held: d.held || d.sp || !within(d) || d.ind != d.base, ..d } } else {
        let brk = d.cur.len() > 0 && d.pend > 0;
        let lines = if !brk { d.lines } else if d.pend < 2 { d.lines.push(d.cur) } else { d.lines.push(d.cur).push(Seq::empty()) };
        let ind = if (brk || d.cur.len() == 0) && d.ind > 0 { seq![Tk::Ind(d.ind)] } else { seq![] };
        let sp = if d.sp { seq![Tk::C(' ')] } else { seq![] };
        Doc { lines, cur: (if brk { seq![] } else { d.cur }) + ind + sp + t, pend: 0, sp: false, ind: d.ind, base: d.ind, held: false }
    }
}
pub open spec fn d_space(d: Doc) -> Doc { if d.held { d_void(d) } else { Doc { sp: true, ..d } } }
pub open spec fn d_push(d: Doc) -> Doc { Doc { pend: if d.pend >= 2 { 2 } else { 1 }, sp: false, ..d } }
pub open spec fn d_line(d: Doc) -> Doc { Doc { pend: 2, sp: false, ..d } }
/// a change of indentation takes the place of what is pending; no change at all leaves nothing
pub open spec fn d_indent(d: Doc, n: int) -> Doc { if d.held { d_void(d) } else if d.ind + n == d.base { Doc { pend: 0, sp: false, ind: d.base, ..d } } else { Doc { pend: 1, sp: false, ind: d.ind + n, ..d } } }
pub open spec fn d_empty() -> Doc { Doc { lines: seq![], cur: seq![], pend: 0, sp: false, ind: 0, base: 0, held: false } }
/// text added now starts a line
pub open spec fn at_line(d: Doc) -> bool { d.cur.len() == 0 || d.pend > 0 }
pub open spec fn fresh_line(d: Doc) -> bool { at_line(d) && !d.sp && d.ind == 0 }
/// appending a stream that is more than text on one line: not described
pub uninterp spec fn replay(t: Doc, d: Doc) -> Doc;
/// appending a stream; clean: nothing but text comes first in it
pub open spec fn d_add(d: Doc, t: Doc, clean: bool) -> Doc {
    if t == d_empty() { d }
    else if clean && t.lines.len() == 0 && t.cur.len() > 0 && t.pend == 0 && !t.sp && t.ind == 0 && !t.held { d_text(d, t.cur) }
    else { replay(t, d) }
}
/// text that is added now is all there is, or comes after text
pub open spec fn untouched(d: Doc) -> bool { d.cur.len() > 0 || (d.pend == 0 && !d.sp && d.ind == 0) }
