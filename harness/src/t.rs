//! T01-T04: token streams.
use crate::core::{Rng, Run};
use genco::fmt;
use genco::tokens::{self, FormatInto, Item, ItemStr};
use genco::Tokens;
use std::borrow::Cow;
use std::rc::Rc;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TL;
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Imp(pub u32);
impl genco::lang::LangItem<TL> for Imp {
    fn format(&self, out: &mut fmt::Formatter<'_>, _: &(), _: &()) -> fmt::Result {
        use std::fmt::Write as _;
        write!(out, "i{}", self.0)
    }
}
impl genco::lang::Lang for TL {
    type Config = ();
    type Format = ();
    type Item = Imp;
}
impl FormatInto<TL> for Imp {
    fn format_into(self, t: &mut Tokens<TL>) {
        t.append(tokens::__lang_item::<TL>(self));
    }
}
impl tokens::Register<TL> for Imp {
    fn register(self, t: &mut Tokens<TL>) {
        t.append(tokens::__lang_item_register::<TL>(self));
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Op {
    Lit(String),
    Lang(u32),
    Reg(u32),
    Push,
    Line,
    Space,
    Indent,
    Unindent,
    Ind(i16),
    OpenQuote(bool),
    CloseQuote,
    OpenEval,
    CloseEval,
    /// built on its own, then added in the given way
    Nested(u8, Vec<Op>),
}

/// Model of one item.
#[derive(Debug, Clone, PartialEq)]
pub enum M {
    Lit(String),
    Lang(usize, u32),
    Reg(usize, u32),
    Push,
    Line,
    Space,
    Ind(i16),
    OpenQuote(bool),
    CloseQuote,
    OpenEval,
    CloseEval,
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Model {
    pub items: Vec<M>,
    pub last: usize,
}

impl Model {
    fn strip(&mut self, f: impl Fn(&M) -> bool) {
        while self.items.last().map(&f).unwrap_or(false) {
            self.items.pop();
        }
    }
    pub fn ind(&mut self, n: i16) {
        let mut n = n;
        loop {
            match self.items.last() {
                Some(M::Ind(u)) => {
                    n += u;
                    self.items.pop();
                }
                Some(M::Push | M::Line | M::Space) => {
                    self.items.pop();
                }
                _ => break,
            }
        }
        if n != 0 {
            self.items.push(M::Ind(n));
        }
    }
    pub fn item(&mut self, m: M) {
        match m {
            M::Space => {
                if self.items.last() != Some(&M::Space) {
                    self.items.push(M::Space)
                }
            }
            M::Push => {
                self.strip(|m| matches!(m, M::Space | M::Push));
                if self.items.last() != Some(&M::Line) {
                    self.items.push(M::Push)
                }
            }
            M::Line => {
                self.strip(|m| matches!(m, M::Line | M::Push));
                self.items.push(M::Line);
            }
            M::Ind(n) => self.ind(n),
            M::Lang(_, x) => {
                self.items.push(M::Lang(self.last, x));
                self.last = self.items.len();
            }
            M::Reg(_, x) => {
                self.items.push(M::Reg(self.last, x));
                self.last = self.items.len();
            }
            o => self.items.push(o),
        }
    }
    pub fn op(&mut self, o: &Op) {
        match o {
            Op::Lit(s) => self.item(M::Lit(s.clone())),
            Op::Lang(n) => self.item(M::Lang(0, *n)),
            Op::Reg(n) => self.item(M::Reg(0, *n)),
            Op::Push => self.item(M::Push),
            Op::Line => self.item(M::Line),
            Op::Space => self.item(M::Space),
            Op::Indent => self.item(M::Ind(1)),
            Op::Unindent => self.item(M::Ind(-1)),
            Op::Ind(n) => self.item(M::Ind(*n)),
            Op::OpenQuote(b) => self.item(M::OpenQuote(*b)),
            Op::CloseQuote => self.item(M::CloseQuote),
            Op::OpenEval => self.item(M::OpenEval),
            Op::CloseEval => self.item(M::CloseEval),
            Op::Nested(_, ops) => {
                let mut inner = Model::default();
                for o in ops {
                    inner.op(o);
                }
                for i in inner.items {
                    self.item(i);
                }
            }
        }
    }
    pub fn imports(&self) -> Vec<u32> {
        self.items
            .iter()
            .rev()
            .filter_map(|m| match m {
                M::Lang(_, x) | M::Reg(_, x) => Some(*x),
                _ => None,
            })
            .collect()
    }
}

pub fn real_items(t: &Tokens<TL>) -> Vec<M> {
    t.iter().map(|i| conv(i)).collect()
}
pub fn conv(i: &Item<TL>) -> M {
    match i {
        Item::Literal(s) => M::Lit((**s).to_string()),
        Item::Lang(p, x) => M::Lang(*p, x.0),
        Item::Register(p, x) => M::Reg(*p, x.0),
        Item::Push => M::Push,
        Item::Line => M::Line,
        Item::Space => M::Space,
        Item::Indentation(n) => M::Ind(*n),
        Item::OpenQuote(b) => M::OpenQuote(*b),
        Item::CloseQuote => M::CloseQuote,
        Item::OpenEval => M::OpenEval,
        Item::CloseEval => M::CloseEval,
    }
}

pub fn real_op(t: &mut Tokens<TL>, o: &Op) {
    match o {
        Op::Lit(s) => t.append(s.as_str()),
        Op::Lang(n) => t.append(Imp(*n)),
        Op::Reg(n) => t.register(Imp(*n)),
        Op::Push => t.push(),
        Op::Line => t.line(),
        Op::Space => t.space(),
        Op::Indent => t.indent(),
        Op::Unindent => t.unindent(),
        Op::Ind(n) => t.append(Item::Indentation(*n)),
        Op::OpenQuote(b) => t.append(Item::OpenQuote(*b)),
        Op::CloseQuote => t.append(Item::CloseQuote),
        Op::OpenEval => t.append(Item::OpenEval),
        Op::CloseEval => t.append(Item::CloseEval),
        Op::Nested(way, ops) => {
            let inner = build(ops);
            match way % 6 {
                0 => t.append(inner),
                1 => t.append(&inner),
                2 => t.extend(inner),
                3 => t.extend(inner.iter().cloned()),
                4 => {
                    for i in inner {
                        t.append(i);
                    }
                }
                _ => t.append(vec![inner]),
            }
        }
    }
}
pub fn build(ops: &[Op]) -> Tokens<TL> {
    let mut t = Tokens::new();
    for o in ops {
        real_op(&mut t, o);
    }
    t
}
pub fn model(ops: &[Op]) -> Model {
    let mut m = Model::default();
    for o in ops {
        m.op(o);
    }
    m
}

pub fn random_ops(r: &mut Rng, len: usize, depth: usize) -> Vec<Op> {
    (0..len)
        .map(|_| match r.below(if depth > 0 { 17 } else { 14 }) {
            0 if r.chance(70) => Op::Lit((*r.pick(&["a", "", "b c", "é"])).to_string()),
            0 => Op::Lit(r.text()),
            1 => Op::Lang(r.below(5) as u32),
            2 => Op::Reg(r.below(5) as u32),
            3 => Op::Push,
            4 => Op::Line,
            5 | 6 => Op::Space,
            7 => Op::Indent,
            8 => Op::Unindent,
            9 if r.chance(70) => Op::Ind(r.below(5) as i16 - 2),
            9 => Op::Ind(if r.chance(50) { r.int(-300, 300) } else { -r.int(-300, 300) } as i16),
            10 => Op::OpenQuote(r.chance(50)),
            11 => Op::CloseQuote,
            12 => Op::OpenEval,
            13 => Op::CloseEval,
            _ => {
                let l = r.below(6);
                let w = r.below(6) as u8;
                Op::Nested(w, random_ops(r, l, depth - 1))
            }
        })
        .collect()
}

fn basic() -> Vec<Op> {
    vec![Op::Lit("a".into()), Op::Lang(1), Op::Reg(2), Op::Push, Op::Line, Op::Space, Op::Indent, Op::Unindent]
}

/// all op sequences up to len, then random ones
fn sequences(run: &mut Run, len: usize, random: usize, mut f: impl FnMut(&mut Run, &[Op])) {
    let b = basic();
    for n in 0..=len {
        let total = b.len().pow(n as u32);
        for mut k in 0..total {
            let mut ops = Vec::new();
            for _ in 0..n {
                ops.push(b[k % b.len()].clone());
                k /= b.len();
            }
            f(run, &ops);
        }
    }
    let mut r = Rng::new(run.seed);
    for _ in 0..random {
        let l = 1 + r.below(20);
        let ops = random_ops(&mut r, l, 3);
        f(run, &ops);
    }
    for i in 0..20 {
        let ops = random_ops(&mut r, 30 << (i % 4), 2);
        f(run, &ops);
    }
    run.bound(&format!("every sequence of at most {len} operations out of 8; {random} random sequences of up to 20 operations, nested up to 3 deep, 20 of up to 240"));
}

fn sizes(run: &Run) -> (usize, usize) {
    if run.thorough { (6, 400_000) } else { (4, 30_000) }
}

pub fn t01(run: &mut Run) {
    let (l, n) = sizes(run);
    sequences(run, l, n, |run, ops| {
        run.case(&ops, ops.len() > 1, || Run::eq(&model(ops).items, &real_items(&build(ops))));
    });
}

pub fn t02(run: &mut Run) {
    let (l, n) = sizes(run);
    sequences(run, l, n, |run, ops| {
        let m = model(ops).imports();
        run.case(&ops, m.len() > 1, || {
            let t = build(ops);
            let got: Vec<u32> = t.walk_imports().take(10_000).map(|i| i.0).collect();
            let mut a = m.clone();
            let mut b = got.clone();
            a.sort();
            b.sort();
            Run::eq(&a, &b)
        });
    });
    // streams longer than any narrow position could count, with imports around the ends
    for n in [250usize, 65_530] {
        for d in 0..12usize {
            let at = n + d;
            run.case(&format!("{at} x [text, pushed line in turn], import 1, space, registered 2, space, import 3; and the same added to another stream"), true, || {
                let mut t: Tokens<TL> = Tokens::new();
                for i in 0..at {
                    if i % 2 == 0 { t.append("a") } else { t.push() }
                }
                t.append(Imp(1));
                t.space();
                t.register(Imp(2));
                t.space();
                t.append(Imp(3));
                let mut u: Tokens<TL> = Tokens::new();
                u.append("b");
                u.append(Imp(4));
                u.extend(t.clone());
                let mut got = Vec::new();
                for t in [t, u] {
                    let mut a: Vec<u32> = t.walk_imports().take(10_000).map(|i| i.0).collect();
                    a.sort();
                    got.push(a);
                }
                Run::eq(&vec![vec![1, 2, 3], vec![1, 2, 3, 4]], &got)
            });
        }
    }
    run.bound("24 streams of 250..261 and 65530..65541 items with imports at their end");
}

pub fn t03(run: &mut Run) {
    let (l, n) = sizes(run);
    sequences(run, l, n, |run, ops| {
        let m = model(ops);
        run.case(&ops, m.items.len() > 1, || {
            let t = build(ops);
            let imports = |t: &Tokens<TL>| t.walk_imports().map(|i| i.0).collect::<Vec<_>>();
            let same = |name: &str, u: &Tokens<TL>| -> Result<(), (String, String)> {
                if *u != t || imports(u) != imports(&t) {
                    return Err((format!("{:?}", t), format!("{name}: {:?}", u)));
                }
                Ok(())
            };
            same("iter().collect()", &t.iter().collect::<Tokens<TL>>())?;
            same("into_iter().collect()", &t.clone().into_iter().collect::<Tokens<TL>>())?;
            same("(&t).into_iter().cloned()", &(&t).into_iter().cloned().collect::<Tokens<TL>>())?;
            let mut u = Tokens::new();
            u.append(&t);
            same("append(&t)", &u)?;
            let mut u = Tokens::new();
            u.append(t.clone());
            same("append(t)", &u)?;
            let mut u = Tokens::new();
            u.extend(t.clone());
            same("extend(t)", &u)?;
            let mut u: Tokens<TL> = Tokens::with_capacity(3);
            t.clone().format_into(&mut u);
            same("format_into", &u)?;
            // iterators that do not know, or only suspect, how many items there are
            same("iter().filter().collect()", &t.iter().filter(|_| true).collect::<Tokens<TL>>())?;
            same("into_iter().filter().collect()", &t.clone().into_iter().filter(|_| true).collect::<Tokens<TL>>())?;
            let all: Vec<Item<TL>> = t.iter().cloned().collect();
            same("chunks.flat_map", &all.chunks(3).flat_map(|c| c.iter()).collect::<Tokens<TL>>())?;
            same("chunks.flat_map owned", &all.chunks(2).flat_map(|c| c.to_vec()).collect::<Tokens<TL>>())?;
            // iterators with a far upper bound
            same("(0..MAX).map_while refs", &(0..usize::MAX).map_while(|i| all.get(i)).collect::<Tokens<TL>>())?;
            same("(0..MAX).map_while", &(0..usize::MAX).map_while(|i| all.get(i).cloned()).collect::<Tokens<TL>>())?;
            let mut u = Tokens::new();
            u.extend((0..usize::MAX).map_while(|i| all.get(i).cloned()));
            same("extend((0..MAX).map_while)", &u)?;
            // prefix + suffix: every cut of the stream, fed through two streams
            for cut in 0..=all.len() {
                let mut u: Tokens<TL> = all[..cut].iter().collect();
                u.extend(all[cut..].iter().cloned());
                same(&format!("cut at {cut}"), &u)?;
            }
            Ok(())
        });
    });
}

fn leaf(i: u32) -> Vec<Op> {
    match i % 4 {
        0 => vec![Op::Lit(format!("l{i}"))],
        1 => vec![Op::Lang(i), Op::Space],
        2 => vec![Op::Line, Op::Lit("x".into()), Op::Push],
        _ => vec![Op::Indent, Op::Reg(i)],
    }
}

/// T04: composite arguments against appending their elements one by one
pub fn t04(run: &mut Run) {
    let mut r = Rng::new(run.seed);
    let n = if run.thorough { 200_000 } else { 20_000 };
    for k in 0..n {
        let lp = r.below(6);
        let pre = random_ops(&mut r, lp, 1);
        let len = if k % 200 == 7 { 10 + r.below(300) } else { r.below(5) };
        let elems: Vec<Vec<Op>> = (0..len)
            .map(|_| {
                if r.chance(30) {
                    let l = r.below(5);
                    random_ops(&mut r, l, 1)
                } else {
                    let i = r.below(12) as u32;
                    leaf(i)
                }
            })
            .collect();
        run.case(&(k, &pre, &elems), len > 0, || {
            let mut want = model(&pre);
            for e in &elems {
                want.op(&Op::Nested(0, e.clone()));
            }
            let toks: Vec<Tokens<TL>> = elems.iter().map(|e| build(e)).collect();
            let check = |name: &str, f: &dyn Fn(&mut Tokens<TL>), want: &Model| -> Result<(), (String, String)> {
                let mut t = build(&pre);
                f(&mut t);
                if real_items(&t) != want.items || t.walk_imports().map(|i| i.0).collect::<Vec<_>>() != want.imports() {
                    return Err((format!("{name}: {:?}", want.items), format!("{:?}", real_items(&t))));
                }
                Ok(())
            };
            check("Vec", &|t| t.append(toks.clone()), &want)?;
            check("&Vec", &|t| t.append(&toks), &want)?;
            check("&[T]", &|t| t.append(&toks[..]), &want)?;
            check("Cow<[T]>::Borrowed", &|t| t.append(Cow::Borrowed(&toks[..])), &want)?;
            check("Cow<[T]>::Owned", &|t| t.append(Cow::<[Tokens<TL>]>::Owned(toks.clone())), &want)?;
            check("&Cow<[T]>::Borrowed", &|t| t.append(&Cow::Borrowed(&toks[..])), &want)?;
            check("&Cow<[T]>::Owned", &|t| t.append(&Cow::<[Tokens<TL>]>::Owned(toks.clone())), &want)?;
            check("Vec<Option>", &|t| t.append(toks.iter().cloned().map(Some).collect::<Vec<_>>()), &want)?;
            check("from_fn", &|t| t.append(tokens::from_fn(|t: &mut Tokens<TL>| for x in &toks { t.append(x) })), &want)?;
            check("Vec<Vec>", &|t| t.append(vec![toks.clone(), vec![]]), &want)?;
            // Option
            let base = model(&pre);
            check("None", &|t| t.append(None::<Tokens<TL>>), &base)?;
            check("None &str", &|t| t.append(None::<&str>), &base)?;
            if let Some(f) = elems.first() {
                let mut w = base.clone();
                w.op(&Op::Nested(0, f.clone()));
                check("Some", &|t| t.append(Some(toks[0].clone())), &w)?;
                let mut w = base.clone();
                w.item(M::OpenQuote(false));
                w.op(&Op::Nested(0, f.clone()));
                w.item(M::CloseQuote);
                check("quoted", &|t| t.append(tokens::quoted(toks[0].clone())), &w)?;
            }
            Ok(())
        });
    }
    // text-like arguments all become the same literal
    let strs = ["", "a", "a b", " \n\t", "a\n", "\r\n", "a\r\nb\n\n", " a ", "\t", "A", "\0", "\"'\\$\u{0}", "é\u{10ffff}", "0123456789012345678901234567890123456789"];
    for s in strs {
        run.case(&("text", s), true, || {
            let lit = |v: &str| vec![M::Lit(v.to_string())];
            let check = |name: &str, f: &dyn Fn(&mut Tokens<TL>)| -> Result<(), (String, String)> {
                let mut t = Tokens::new();
                f(&mut t);
                if real_items(&t) != lit(s) {
                    return Err((format!("{name}: {:?}", lit(s)), format!("{:?}", real_items(&t))));
                }
                Ok(())
            };
            let owned = s.to_string();
            let rc = Rc::new(owned.clone());
            check("&str", &|t| t.append(s))?;
            check("String", &|t| t.append(owned.clone()))?;
            check("&String", &|t| t.append(&owned))?;
            check("Rc", &|t| t.append(rc.clone()))?;
            check("&Rc", &|t| t.append(&rc))?;
            check("Cow b", &|t| t.append(Cow::Borrowed(s)))?;
            check("Cow o", &|t| t.append(Cow::<str>::Owned(owned.clone())))?;
            check("&Cow b", &|t| t.append(&Cow::Borrowed(s)))?;
            check("&Cow o", &|t| t.append(&Cow::<str>::Owned(owned.clone())))?;
            check("Arguments", &|t| t.append(format_args!("{}", s)))?;
            check("display", &|t| t.append(tokens::display(s)))?;
            check("ItemStr s", &|t| t.append(ItemStr::from(s)))?;
            check("&ItemStr", &|t| t.append(&ItemStr::from(s)))?;
            check("ItemStr String", &|t| t.append(ItemStr::from(owned.clone())))?;
            check("ItemStr &String", &|t| t.append(ItemStr::from(&owned)))?;
            check("ItemStr &&str", &|t| t.append(ItemStr::from(&s)))?;
            check("ItemStr Box", &|t| t.append(ItemStr::from(owned.clone().into_boxed_str())))?;
            check("ItemStr Cow b", &|t| t.append(ItemStr::from(Cow::Borrowed(s))))?;
            check("ItemStr Cow o", &|t| t.append(ItemStr::from(Cow::<str>::Owned(owned.clone()))))?;
            check("ItemStr &Cow b", &|t| t.append(ItemStr::from(&Cow::Borrowed(s))))?;
            check("ItemStr &Cow o", &|t| t.append(ItemStr::from(&Cow::<str>::Owned(owned.clone()))))?;
            check("ItemStr Rc", &|t| t.append(ItemStr::from(rc.clone())))?;
            check("ItemStr &ItemStr", &|t| t.append(ItemStr::from(&ItemStr::from(s))))?;
            Ok(())
        });
    }
    for s in ["", "a", "hello\n"] {
        run.case(&("static", s), true, || {
            let mut t: Tokens<TL> = Tokens::new();
            t.append(tokens::static_literal(s));
            Run::eq(&vec![M::Lit(s.to_string())], &real_items(&t))
        });
    }
    macro_rules! nums {
        ($($t:ty),*) => {$(
            let mut all = vec![<$t>::MIN, <$t>::MAX, 0 as $t, 1 as $t, 10 as $t, 99 as $t, 100 as $t, 127 as $t];
            for b in 0..<$t>::BITS {
                let v = (1 as $t) << b;
                for w in [v, v.wrapping_sub(1), v.wrapping_add(1), (0 as $t).wrapping_sub(v), (0 as $t).wrapping_sub(v).wrapping_sub(1)] {
                    all.push(w);
                }
            }
            for v in all {
                run.case(&(stringify!($t), v), true, || {
                    let mut t: Tokens<TL> = Tokens::new();
                    t.append(v);
                    Run::eq(&vec![M::Lit(dec(v.to_string().as_str()))], &real_items(&t))
                });
            }
        )*};
    }
    nums!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, isize, usize);
    // registration through tuples keeps every element
    run.case(&"register tuples", true, || {
        let mut t: Tokens<TL> = Tokens::new();
        t.register((Imp(1),));
        t.register((Imp(1), Imp(2)));
        t.register((Imp(1), Imp(2), Imp(3)));
        t.register((Imp(1), Imp(2), Imp(3), Imp(4)));
        t.register((Imp(1), Imp(2), Imp(3), Imp(4), Imp(5)));
        t.register((Imp(1), Imp(2), Imp(3), Imp(4), Imp(5), Imp(6)));
        t.register((Imp(1), Imp(2), Imp(3), Imp(4), Imp(5), Imp(6), Imp(7)));
        t.append(tokens::register((Imp(1), Imp(2), Imp(3), Imp(4), Imp(5), Imp(6), Imp(7), Imp(8))));
        let got: Vec<u32> = real_items(&t).iter().map(|m| if let M::Reg(_, x) = m { *x } else { 99 }).collect();
        let want: Vec<u32> = (1..=8).flat_map(|n| 1..=n).collect();
        Run::eq(&want, &got)?;
        let mut w: Vec<u32> = t.walk_imports().map(|i| i.0).collect();
        w.reverse();
        Run::eq(&want, &w)
    });
    comments(run);
    imports(run);
    run.bound(&format!("{n} random prefixes and element lists (at most 4 elements, 1 in 200 of up to 309, each a stream of up to 4 operations, nested once); 14 strings for each text type; for each integer type the extremes, small values and the neighbours of each power of two; tuples of 1 to 8; comments of up to 4 lines after 6 kinds of prefix; the imports of every language"));
}
fn dec(s: &str) -> String {
    s.to_string()
}

/// a comment against the operations it stands for, after several kinds of stream
fn comments(run: &mut Run) {
    use genco::lang::{csharp, dart, java, Lang};
    let lists: Vec<Vec<&str>> = vec![vec![], vec!["a"], vec![""], vec!["a", "b c"], vec!["", "", "x"], vec!["*/", "//", " y ", "\u{e9}"]];
    fn pre<L: Lang>(k: u32) -> Tokens<L> {
        let mut t = Tokens::new();
        match k {
            1 => t.append("x"),
            2 => { t.append("x"); t.space() }
            3 => { t.append("x"); t.push() }
            4 => { t.append("x"); t.line() }
            5 => { t.append("x"); t.indent() }
            _ => {}
        }
        t
    }
    fn each<L: Lang>(t: &mut Tokens<L>, mark: &'static str, lines: &[&str]) {
        for l in lines {
            t.push();
            t.append(mark);
            t.space();
            t.append(*l);
        }
    }
    for k in 0..6 {
        for lines in &lists {
            run.case(&("comment", k, lines), !lines.is_empty(), || {
                let (mut w, mut g) = (pre::<csharp::Csharp>(k), pre::<csharp::Csharp>(k));
                each(&mut w, "///", lines);
                g.append(csharp::block_comment(lines.iter().copied()));
                if w != g { return Err((format!("{w:?}"), format!("{g:?}"))); }
                let (mut w, mut g) = (pre::<csharp::Csharp>(k), pre::<csharp::Csharp>(k));
                each(&mut w, "//", lines);
                g.append(csharp::comment(lines.clone()));
                Run::eq(&w.to_vec().ok(), &g.to_vec().ok())?;
                if w != g { return Err((format!("{w:?}"), format!("{g:?}"))); }
                let (mut w, mut g) = (pre::<dart::Dart>(k), pre::<dart::Dart>(k));
                each(&mut w, "///", lines);
                g.append(dart::doc_comment(lines.clone()));
                if w != g { return Err((format!("{w:?}"), format!("{g:?}"))); }
                let (mut w, mut g) = (pre::<java::Java>(k), pre::<java::Java>(k));
                if !lines.is_empty() {
                    w.push();
                    w.append("/**");
                    w.push();
                    for l in lines {
                        w.space();
                        w.append("*");
                        w.space();
                        w.append(*l);
                        w.push();
                    }
                    w.space();
                    w.append("*/");
                }
                g.append(java::block_comment(lines.clone()));
                if w != g { return Err((format!("{w:?}"), format!("{g:?}"))); }
                Ok(())
            });
        }
    }
}

/// an import of each language, inserted and registered, owned and by reference
fn imports(run: &mut Run) {
    use genco::lang::*;
    macro_rules! one {
        ($l:ty, $make:expr) => {
            run.case(&stringify!($make), true, || {
                let i = $make;
                let mut t: Tokens<$l> = Tokens::new();
                t.append("x");
                t.append(i.clone());
                t.append(&i);
                t.register(i.clone());
                t.register(&i);
                t.append(tokens::register((&i, i.clone())));
                let any = || Box::new(<<$l as genco::lang::Lang>::Item>::from(i.clone()));
                let want = vec![
                    Item::Literal("x".into()),
                    Item::Lang(0, any()),
                    Item::Lang(2, any()),
                    Item::Register(3, any()),
                    Item::Register(4, any()),
                    Item::Register(5, any()),
                    Item::Register(6, any()),
                ];
                if t != want { return Err((format!("{want:?}"), format!("{t:?}"))); }
                Run::eq(&6, &t.walk_imports().count())
            });
        };
    }
    one!(C, c::include("a", "b"));
    one!(Csharp, csharp::import("a", "b"));
    one!(Dart, dart::import("a", "b"));
    one!(Go, go::import("a", "b"));
    one!(Java, java::import("a", "b"));
    one!(JavaScript, js::import("a", "b"));
    one!(Nix, nix::inherit("a", "b"));
    one!(Python, python::import("a", "b"));
    one!(Python, python::import_module("a"));
    one!(Rust, rust::import("a", "b"));
    one!(Swift, swift::import("a", "b"));
}
