//! F01-F03: formatting.
use crate::core::{Rng, Run};
use genco::fmt::{self, Config, Indentation};
use genco::lang::{Lang, LangItem};
use genco::tokens::{self, FormatInto, Item};
use genco::Tokens;
use std::fmt::Write as _;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct QL;
#[derive(Debug, Clone, Default)]
pub struct QC(pub String);
#[derive(Debug, Clone, Default)]
pub struct QF(pub String);
/// writes its pieces one by one, then the marks of config and format
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Pieces(pub Vec<String>);

impl LangItem<QL> for Pieces {
    fn format(&self, out: &mut fmt::Formatter<'_>, c: &QC, f: &QF) -> fmt::Result {
        for p in &self.0 {
            out.write_str(p)?;
        }
        out.write_str(&c.0)?;
        out.write_str(&f.0)
    }
}
impl FormatInto<QL> for Pieces {
    fn format_into(self, t: &mut Tokens<QL>) {
        t.append(tokens::__lang_item::<QL>(self));
    }
}
impl tokens::Register<QL> for Pieces {
    fn register(self, t: &mut Tokens<QL>) {
        t.append(tokens::__lang_item_register::<QL>(self));
    }
}
impl Lang for QL {
    type Config = QC;
    type Format = QF;
    type Item = Pieces;
    fn default_indentation() -> Indentation {
        Indentation::Space(3)
    }
    fn open_quote(out: &mut fmt::Formatter<'_>, c: &QC, f: &QF, e: bool) -> fmt::Result {
        out.write_str(if e { "<e" } else { "<" })?;
        out.write_str(&c.0)?;
        out.write_str(&f.0)
    }
    fn close_quote(out: &mut fmt::Formatter<'_>, c: &QC, f: &QF, e: bool) -> fmt::Result {
        out.write_str(&c.0)?;
        out.write_str(&f.0)?;
        out.write_str(if e { "e>" } else { ">" })
    }
    fn string_eval_literal(out: &mut fmt::Formatter<'_>, c: &QC, f: &QF, l: &str) -> fmt::Result {
        write!(out, "{{={}{}{}}}", c.0, f.0, l)
    }
    fn start_string_eval(out: &mut fmt::Formatter<'_>, c: &QC, f: &QF) -> fmt::Result {
        write!(out, "{{{}{}", c.0, f.0)
    }
    fn end_string_eval(out: &mut fmt::Formatter<'_>, c: &QC, f: &QF) -> fmt::Result {
        write!(out, "{}{}}}", c.0, f.0)
    }
    fn write_quoted(out: &mut fmt::Formatter<'_>, s: &str) -> fmt::Result {
        for c in s.chars() {
            out.write_char('\\')?;
            out.write_char(c)?;
        }
        Ok(())
    }
    fn format_file(t: &Tokens<QL>, out: &mut fmt::Formatter<'_>, c: &QC) -> fmt::Result {
        let mut head: Tokens<QL> = Tokens::new();
        let mut any = false;
        for i in t.walk_imports() {
            head.append(format!("use {}", i.0.concat()));
            head.push();
            any = true;
        }
        if any {
            head.line();
        }
        head.format(out, c, &QF("h".into()))?;
        t.format(out, c, &QF("f".into()))
    }
}

/// What a formatter is asked to do, in order.
#[derive(Debug, Clone)]
enum Node {
    Text(String),
    Item(Vec<String>),
    Reg(Vec<String>),
    Push,
    Line,
    Space,
    Ind(i16),
    Str(bool, Vec<Node>),
    Eval(Vec<Node>),
    /// a string inside a string: text and layout only
    Inner(Vec<Node>),
}

fn add(t: &mut Tokens<QL>, n: &Node) {
    match n {
        Node::Text(s) => t.append(s.as_str()),
        Node::Item(p) => t.append(Pieces(p.clone())),
        Node::Reg(p) => t.register(Pieces(p.clone())),
        Node::Push => t.append(Item::Push),
        Node::Line => t.append(Item::Line),
        Node::Space => t.append(Item::Space),
        Node::Ind(n) => t.append(Item::Indentation(*n)),
        Node::Str(e, ns) => {
            t.append(Item::OpenQuote(*e));
            ns.iter().for_each(|n| add(t, n));
            t.append(Item::CloseQuote);
        }
        Node::Eval(ns) => {
            t.append(Item::OpenEval);
            ns.iter().for_each(|n| add(t, n));
            t.append(Item::CloseEval);
        }
        Node::Inner(ns) => {
            t.append(Item::OpenQuote(false));
            ns.iter().for_each(|n| add(t, n));
            t.append(Item::CloseQuote);
        }
    }
}
fn build(ns: &[Node]) -> Tokens<QL> {
    let mut t = Tokens::new();
    ns.iter().for_each(|n| add(&mut t, n));
    t
}

/// Output of a formatter as text and line breaks.
#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Text(String),
    Nl,
}
#[derive(Debug, Clone)]
struct Lay {
    out: Vec<Ev>,
    started: bool,
    /// line breaks owed before the next text
    owed: usize,
    spaces: usize,
    indent: i64,
    unit: Indentation,
}
impl Lay {
    fn new(unit: Indentation) -> Self {
        Lay { out: vec![], started: false, owed: 0, spaces: 0, indent: 0, unit }
    }
    fn text(&mut self, s: &str) {
        if s.is_empty() {
            return;
        }
        for _ in 0..self.owed {
            self.out.push(Ev::Nl);
        }
        let mut lead = String::new();
        if self.owed > 0 || !self.started {
            let level = self.indent.max(0) as usize;
            match self.unit {
                Indentation::Space(n) => lead.push_str(&" ".repeat(level * n)),
                Indentation::Tab => lead.push_str(&"\t".repeat(level)),
            }
        }
        lead.push_str(&" ".repeat(self.spaces));
        lead.push_str(s);
        self.out.push(Ev::Text(lead));
        self.started = true;
        self.owed = 0;
        self.spaces = 0;
    }
    fn brk(&mut self, n: usize) {
        self.spaces = 0;
        if self.started {
            self.owed = self.owed.max(n);
        }
        // before the first text line breaks do not count
    }
    fn string(&self, nl: &str) -> String {
        self.out.iter().map(|e| match e { Ev::Text(s) => s.as_str(), Ev::Nl => nl }).collect()
    }
    fn lines(&self) -> Vec<String> {
        let mut v = vec![String::new()];
        for e in &self.out {
            match e {
                Ev::Text(s) => v.last_mut().unwrap().push_str(s),
                Ev::Nl => v.push(String::new()),
            }
        }
        v
    }
}

struct Ctx<'a> {
    c: &'a QC,
    f: &'a QF,
    nl: &'a str,
    /// the language that says nothing of its own
    plain: bool,
}

/// The flat items a stream holds are what is laid out: repeated layout has
/// been combined by the stream (T01), so the model works on the combined form.
#[derive(Debug, Clone)]
enum It {
    N(Node),
    OpenQ(bool),
    CloseQ,
    OpenE,
    CloseE,
}
fn plain(t: &Tokens<QL>) -> Tokens<()> {
    let mut u: Tokens<()> = Tokens::new();
    for i in t.iter() {
        u.append(match i {
            Item::Literal(s) => Item::Literal(s.clone()),
            Item::Lang(..) => Item::Lang(0, Box::new(())),
            Item::Register(..) => Item::Register(0, Box::new(())),
            Item::Push => Item::Push,
            Item::Line => Item::Line,
            Item::Space => Item::Space,
            Item::Indentation(n) => Item::Indentation(*n),
            Item::OpenQuote(e) => Item::OpenQuote(*e),
            Item::CloseQuote => Item::CloseQuote,
            Item::OpenEval => Item::OpenEval,
            Item::CloseEval => Item::CloseEval,
        });
    }
    u
}
/// The plain language: strings between double quotes as they are, evaluations unmarked.
fn compare_plain(t: &Tokens<QL>, unit: Indentation, nl: &'static str, file: bool) -> Result<(), (String, String)> {
    let u = plain(t);
    let its: Vec<It> = items_of(t)
        .into_iter()
        .map(|i| match i {
            It::N(Node::Item(_)) => It::N(Node::Item(vec![])),
            i => i,
        })
        .collect();
    let Some(ns) = parse(&its, &mut 0, 0) else { return Ok(()) };
    let mut l = Lay::new(unit);
    render(&mut l, &ns, &Ctx { c: &QC(String::new()), f: &QF(String::new()), nl, plain: true }, false);
    let cfg = config(unit, nl);
    let mut w = fmt::FmtWriter::new(String::new());
    let r = if file { u.format_file(&mut w.as_formatter(&cfg), &()) } else { u.format(&mut w.as_formatter(&cfg), &(), &()) };
    let mut want = l.string(nl);
    if file {
        want.push_str(nl);
    }
    Run::eq(&Some(want), &r.ok().map(|_| w.into_inner()))
}
fn items_of(t: &Tokens<QL>) -> Vec<It> {
    t.iter()
        .map(|i| match i {
            Item::Literal(s) => It::N(Node::Text((**s).to_string())),
            Item::Lang(_, x) => It::N(Node::Item(x.0.clone())),
            Item::Register(_, x) => It::N(Node::Reg(x.0.clone())),
            Item::Push => It::N(Node::Push),
            Item::Line => It::N(Node::Line),
            Item::Space => It::N(Node::Space),
            Item::Indentation(n) => It::N(Node::Ind(*n)),
            Item::OpenQuote(e) => It::OpenQ(*e),
            Item::CloseQuote => It::CloseQ,
            Item::OpenEval => It::OpenE,
            Item::CloseEval => It::CloseE,
        })
        .collect()
}

/// None: not well nested (or what the formatter documents as unsupported)
fn parse(items: &[It], pos: &mut usize, ctx: u8) -> Option<Vec<Node>> {
    // ctx 0: top, 1: in a string, 2: in an evaluation, 3: in an inner string
    let mut out = vec![];
    loop {
        let Some(i) = items.get(*pos) else { return (ctx == 0).then_some(out) };
        *pos += 1;
        match (i, ctx) {
            (It::N(n), _) => out.push(n.clone()),
            (It::OpenQ(e), 0 | 2) => out.push(Node::Str(*e, parse(items, pos, 1)?)),
            (It::OpenQ(false), 1) => out.push(Node::Inner(parse(items, pos, 3)?)),
            (It::OpenE, 1) => out.push(Node::Eval(parse(items, pos, 2)?)),
            (It::CloseQ, 1 | 3) => return Some(out),
            (It::CloseE, 2) => return Some(out),
            _ => return None,
        }
    }
}

fn quoted(l: &mut Lay, s: &str, plain: bool) {
    if plain {
        return l.text(s);
    }
    for c in s.chars() {
        l.text("\\");
        l.text(&c.to_string());
    }
}
fn render(l: &mut Lay, ns: &[Node], x: &Ctx, in_str: bool) {
    let marks = format!("{}{}", x.c.0, x.f.0);
    for n in ns {
        match n {
            Node::Text(s) if in_str => quoted(l, s, x.plain),
            Node::Text(s) => l.text(s),
            Node::Item(p) => {
                for s in p {
                    l.text(s);
                }
                l.text(&marks);
            }
            Node::Reg(_) => (),
            Node::Push => l.brk(1),
            Node::Line => l.brk(2),
            Node::Space => l.spaces += 1,
            Node::Ind(0) => (),
            Node::Ind(n) => {
                l.brk(1);
                l.indent += *n as i64;
            }
            Node::Str(e, inner) => {
                let e = if *e { "e" } else { "" };
                l.text(&if x.plain { "\"".to_string() } else { format!("<{e}{marks}") });
                render(l, inner, x, true);
                l.text(&if x.plain { "\"".to_string() } else { format!("{marks}{e}>") });
            }
            Node::Eval(inner) => match &inner[..] {
                [Node::Text(s)] if x.plain => l.text(s),
                inner if x.plain => render(l, inner, x, false),
                [Node::Text(s)] => l.text(&format!("{{={marks}{s}}}")),
                _ => {
                    l.text(&format!("{{{marks}"));
                    render(l, inner, x, false);
                    l.text(&format!("{marks}}}"));
                }
            },
            Node::Inner(inner) => {
                let mut l2 = Lay::new(l.unit);
                l2.text(&if x.plain { "\"".to_string() } else { format!("<{marks}") });
                render(&mut l2, inner, x, false);
                l2.text(&if x.plain { "\"".to_string() } else { format!("{marks}>") });
                quoted(l, &l2.string(x.nl), x.plain);
            }
        }
    }
}

fn config(unit: Indentation, nl: &'static str) -> Config {
    Config::from_lang::<QL>().with_indentation(unit).with_newline(nl)
}

fn random_leaf(r: &mut Rng) -> Node {
    match r.below(13) {
        0..=2 => Node::Text(r.text()),
        3 => {
            let k = r.below(4);
            Node::Item((0..k).map(|_| (*r.pick(&["", "i", "jj"])).to_string()).collect())
        }
        4 => Node::Reg(vec!["r".into()]),
        5 | 6 => Node::Push,
        7 => Node::Line,
        8 | 9 => Node::Space,
        10 if r.chance(30) => Node::Ind(r.int(-200, 200) as i16),
        10 => Node::Ind(r.below(5) as i16 - 2),
        11 => Node::Ind(1),
        _ => Node::Ind(*r.pick(&[0, 45, -45, 85, -100])),
    }
}
fn random_nodes(r: &mut Rng, len: usize, depth: usize, ctx: u8) -> Vec<Node> {
    (0..len)
        .map(|_| {
            if depth == 0 || ctx == 3 || r.chance(60) {
                return random_leaf(r);
            }
            let l = r.below(4);
            match (ctx, r.below(2)) {
                (0 | 2, _) => Node::Str(r.chance(50), random_nodes(r, l, depth - 1, 1)),
                (1, 0) => Node::Inner(random_nodes(r, l, depth - 1, 3)),
                (1, _) if r.chance(30) => Node::Eval(vec![Node::Text("v".into())]),
                _ => Node::Eval(random_nodes(r, l, depth - 1, 2)),
            }
        })
        .collect()
}

const UNITS: &[Indentation] = &[
    Indentation::Space(4),
    Indentation::Tab,
    Indentation::Space(0),
    Indentation::Space(1),
    Indentation::Space(150),
];
const NLS: &[&str] = &["\n", "\r\n", ""];

/// a deep nesting of strings and evaluations with little beside it
fn spine(r: &mut Rng, depth: usize, ctx: u8) -> Node {
    let mut v = vec![];
    for _ in 0..r.below(3) {
        v.push(random_leaf(r));
    }
    if depth > 0 && r.chance(90) {
        let at = r.below(v.len() + 1);
        let inner = spine(r, depth - 1, if ctx == 1 { 2 } else { 1 });
        v.insert(at, inner);
    }
    match ctx {
        1 => Node::Eval(v),
        _ => Node::Str(r.chance(70), v),
    }
}

fn all_leaves() -> Vec<Node> {
    vec![
        Node::Text("a".into()),
        Node::Text("".into()),
        Node::Push,
        Node::Line,
        Node::Space,
        Node::Ind(1),
        Node::Ind(-1),
        Node::Ind(41),
        Node::Item(vec!["".into(), "x".into()]),
    ]
}

fn exhaustive(len: usize, b: &[Node], mut f: impl FnMut(Vec<Node>)) {
    for n in 0..=len {
        for mut k in 0..b.len().pow(n as u32) {
            let mut ns = Vec::new();
            for _ in 0..n {
                ns.push(b[k % b.len()].clone());
                k /= b.len();
            }
            f(ns);
        }
    }
}

fn compare(ns: &[Node], unit: Indentation, nl: &'static str, c: &QC, f: &QF) -> Result<(), (String, String)> {
    let t = build(ns);
    let its = items_of(&t);
    let want = parse(&its, &mut 0, 0).map(|ns| {
        let mut l = Lay::new(unit);
        render(&mut l, &ns, &Ctx { c, f, nl, plain: false }, false);
        l.string(nl)
    });
    let cfg = config(unit, nl);
    let mut w = fmt::FmtWriter::new(String::new());
    let r = t.format(&mut w.as_formatter(&cfg), c, f);
    Run::eq(&want, &r.ok().map(|_| w.into_inner()))
}

/// several streams written through one formatter
fn compare_seq(parts: &[Vec<Node>], unit: Indentation, nl: &'static str) -> Result<(), (String, String)> {
    let (c, f) = (QC::default(), QF::default());
    let mut l = Lay::new(unit);
    let cfg = config(unit, nl);
    let mut w = fmt::FmtWriter::new(String::new());
    {
        let mut out = w.as_formatter(&cfg);
        for p in parts {
            let t = build(p);
            let ns = parse(&items_of(&t), &mut 0, 0).unwrap();
            render(&mut l, &ns, &Ctx { c: &c, f: &f, nl, plain: false }, false);
            t.format(&mut out, &c, &f).map_err(|_| ("no error".to_string(), "fmt::Error".to_string()))?;
        }
    }
    Run::eq(&l.string(nl), &w.into_inner())
}

pub fn f01(run: &mut Run) {
    let (len, n) = if run.thorough { (5, 300_000) } else { (4, 30_000) };
    let leaves = all_leaves();
    for (unit, nl) in [(UNITS[0], "\n"), (UNITS[1], "\r\n")] {
        exhaustive(len, &leaves, |ns| {
            run.case(&(unit, nl, &ns), ns.len() > 1, || compare(&ns, unit, nl, &QC::default(), &QF::default()))
        });
    }
    let mut r = Rng::new(run.seed);
    for _ in 0..n {
        let l = r.below(14);
        let ns: Vec<Node> = (0..l).map(|_| random_leaf(&mut r)).collect();
        let (unit, nl) = (*r.pick(UNITS), *r.pick(NLS));
        run.case(&(unit, nl, &ns), true, || compare(&ns, unit, nl, &QC::default(), &QF::default()));
        let k = r.below(4);
        let parts: Vec<Vec<Node>> = (0..k)
            .map(|_| {
                let l = r.below(6);
                (0..l).map(|_| random_leaf(&mut r)).collect()
            })
            .collect();
        run.case(&(unit, nl, &parts), true, || compare_seq(&parts, unit, nl));
    }
    // settings survive each other whatever the order they are given in
    for unit in UNITS {
        for nl in NLS {
            run.case(&("settings", unit, nl), true, || {
                let ns = vec![Node::Text("a".into()), Node::Ind(2), Node::Text("b".into()), Node::Line, Node::Text("c".into())];
                let mut l = Lay::new(*unit);
                let (c, f) = (QC::default(), QF::default());
                render(&mut l, &ns, &Ctx { c: &c, f: &f, nl, plain: false }, false);
                for cfg in [
                    Config::from_lang::<QL>().with_indentation(*unit).with_newline(nl),
                    Config::from_lang::<QL>().with_newline(nl).with_indentation(*unit),
                    Config::from_lang::<QL>().with_newline("?").with_indentation(Indentation::Tab).with_newline(nl).with_indentation(*unit),
                ] {
                    let mut w = fmt::FmtWriter::new(String::new());
                    let _ = build(&ns).format(&mut w.as_formatter(&cfg), &c, &f);
                    Run::eq(&l.string(nl), &w.into_inner())?;
                }
                Ok(())
            });
        }
    }
    run.bound(&format!("every sequence of at most {len} of 9 leaf items with 4 spaces/LF and tabs/CRLF; {n} random streams of up to 13 leaf items and {n} groups of up to 3 streams through one formatter, 5 indentation units, 3 line terminators"));
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Raw {
    T,
    S,
    OQ(bool),
    CQ,
    OE,
    CE,
}

pub fn f02(run: &mut Run) {
    let (len, n) = if run.thorough { (7, 300_000) } else { (5, 40_000) };
    // every short sequence of markers: well nested ones render as their tree,
    // the rest is refused
    let b = [Raw::T, Raw::S, Raw::OQ(false), Raw::OQ(true), Raw::CQ, Raw::OE, Raw::CE];
    for n in 0..=len {
        for mut k in 0..b.len().pow(n as u32) {
            let mut ops = Vec::new();
            for _ in 0..n {
                ops.push(b[k % b.len()]);
                k /= b.len();
            }
            run.case(&ops, n > 1, || {
                let mut t: Tokens<QL> = Tokens::new();
                for o in &ops {
                    match o {
                        Raw::T => t.append("x"),
                        Raw::S => t.append(Item::Space),
                        Raw::OQ(e) => t.append(Item::OpenQuote(*e)),
                        Raw::CQ => t.append(Item::CloseQuote),
                        Raw::OE => t.append(Item::OpenEval),
                        Raw::CE => t.append(Item::CloseEval),
                    }
                }
                let its = items_of(&t);
                let (c, f) = (QC("c".into()), QF("f".into()));
                let cfg = config(Indentation::Space(2), "\n");
                let mut w = fmt::FmtWriter::new(String::new());
                let got = t.format(&mut w.as_formatter(&cfg), &c, &f).ok().map(|_| w.into_inner());
                match parse(&its, &mut 0, 0) {
                    Some(ns) => {
                        let mut l = Lay::new(Indentation::Space(2));
                        render(&mut l, &ns, &Ctx { c: &c, f: &f, nl: "\n", plain: false }, false);
                        Run::eq(&Some(l.string("\n")), &got)
                    }
                    None => {
                        // a stream cut short may be rendered as far as it goes; a
                        // marker that closes nothing or opens where it cannot is refused
                        if cut_short(&its) {
                            Ok(())
                        } else {
                            Run::eq(&None, &got)
                        }
                    }
                }
            });
        }
    }
    let mut r = Rng::new(run.seed);
    for _ in 0..n {
        let (l, d) = if r.chance(70) { (r.below(6), 4) } else { (1 + r.below(3), 9) };
        let ns = if d == 9 && r.chance(50) { vec![spine(&mut r, d, 0)] } else { random_nodes(&mut r, l, d, 0) };
        let (unit, nl) = (*r.pick(&UNITS[..4]), *r.pick(NLS));
        let c = QC((*r.pick(&["", "c"])).into());
        let f = QF((*r.pick(&["", "f"])).into());
        run.case(&(unit, nl, &c, &f, &ns), true, || {
            compare_plain(&build(&ns), unit, nl, false)?;
            compare(&ns, unit, nl, &c, &f)
        });
    }
    run.bound(&format!("every sequence of at most {len} of 7 items (text, space, quote and evaluation markers); {n} random trees of depth at most 4, 4 indentation units, 3 line terminators"));
}

/// some completion of the stream is well nested
fn cut_short(its: &[It]) -> bool {
    let mut stack = vec![0u8];
    for i in its {
        let c = *stack.last().unwrap();
        match (i, c) {
            (It::N(_), _) => (),
            (It::OpenQ(_), 0 | 2) => stack.push(1),
            (It::OpenQ(false), 1) => stack.push(3),
            (It::OpenE, 1) => stack.push(2),
            (It::CloseQ, 1 | 3) | (It::CloseE, 2) => {
                stack.pop();
            }
            // the formatter refuses these only at the end of the outer string
            (It::OpenQ(_), 3) => return true,
            // an evaluation closed inside a string that was not
            (It::CloseE, 1) if stack.contains(&2) => return true,
            _ => return false,
        }
    }
    stack.len() > 1
}

struct Failing {
    got: String,
    writes: usize,
}
impl std::fmt::Write for Failing {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.writes == 0 {
            return Err(std::fmt::Error);
        }
        self.writes -= 1;
        self.got.push_str(s);
        Ok(())
    }
}
struct FailingIo {
    got: Vec<u8>,
    bytes: usize,
    chunk: usize,
    interrupt: bool,
}
impl std::io::Write for FailingIo {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        // short writes and interruptions are not failures
        if self.interrupt {
            self.interrupt = false;
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        self.interrupt = true;
        let n = b.len().min(self.chunk).min(self.bytes);
        if n == 0 && !b.is_empty() {
            return Err(std::io::ErrorKind::Other.into());
        }
        self.bytes -= n;
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn f03(run: &mut Run) {
    let n = if run.thorough { 100_000 } else { 12_000 };
    let mut r = Rng::new(run.seed);
    for _ in 0..n {
        let l = r.below(8);
        let ns = random_nodes(&mut r, l, 3, 0);
        let (unit, nl) = (*r.pick(&UNITS[..4]), *r.pick(NLS));
        let cut = r.below(30);
        let chunk = 1 + r.below(9);
        let file = r.chance(50);
        run.case(&(unit, nl, file, cut, chunk, &ns), true, || {
            let t = build(&ns);
            compare_plain(&t, unit, nl, file)?;
            let cfg = config(unit, nl);
            let (c, f) = (QC("c".into()), QF("f".into()));
            let go = |out: &mut fmt::Formatter<'_>| if file { t.format_file(out, &c) } else { t.format(out, &c, &f) };
            // the model's text and lines
            let mut lay = Lay::new(unit);
            let tree = parse(&items_of(&t), &mut 0, 0).unwrap();
            if file {
                let imports: Vec<Vec<String>> = t.walk_imports().map(|p| p.0.clone()).collect();
                for p in &imports {
                    lay.text(&format!("use {}", p.concat()));
                    lay.brk(1);
                }
                if !imports.is_empty() {
                    lay.brk(2);
                }
            }
            let ff = if file { QF("f".into()) } else { f.clone() };
            render(&mut lay, &tree, &Ctx { c: &c, f: &ff, nl, plain: false }, false);
            let lines = lay.lines();
            let mut text = lay.string(nl);
            if file {
                text.push_str(nl);
            }
            let mut w = fmt::FmtWriter::new(String::new());
            let r1 = go(&mut w.as_formatter(&cfg));
            Run::eq(&(Ok(()), text.clone()), &(r1, w.into_inner()))?;
            // lines never contain the separator, except through text that has one,
            // so the vector is compared with a run whose separator is "\n"
            let mut w = fmt::VecWriter::new();
            let r2 = go(&mut w.as_formatter(&cfg));
            let v = w.into_vec();
            let inner = has_inner(&tree);
            if !inner || nl == "\n" {
                Run::eq(&(Ok(()), lines.clone()), &(r2, v.clone()))?;
            }
            let mut joined = v.join(nl);
            if file {
                joined.push_str(nl);
            }
            Run::eq(&text, &joined)?;
            let mut w = fmt::IoWriter::new(Vec::new());
            let r3 = go(&mut w.as_formatter(&cfg));
            Run::eq(&(Ok(()), text.clone()), &(r3, String::from_utf8(w.into_inner()).unwrap()))?;
            // failing sinks
            let mut w = fmt::FmtWriter::new(Failing { got: String::new(), writes: cut });
            let r4 = go(&mut w.as_formatter(&cfg));
            let s = w.into_inner();
            let bad = match r4 {
                Ok(()) => s.got != text,
                Err(_) => s.writes > 0 || !text.starts_with(&s.got),
            };
            if bad {
                return Err((format!("{cut} writes of {text:?} and an error unless all of it"), format!("{r4:?} {:?}", s.got)));
            }
            let mut w = fmt::IoWriter::new(FailingIo { got: vec![], bytes: cut, chunk, interrupt: false });
            let r5 = go(&mut w.as_formatter(&cfg));
            let s = w.into_inner();
            let k = cut.min(text.len());
            if r5.is_ok() != (text.len() <= cut) || s.got != text.as_bytes()[..k] {
                return Err((format!("the first {k} bytes of {text:?}, error: {}", text.len() > cut), format!("{r5:?} {:?}", String::from_utf8_lossy(&s.got))));
            }
            Ok(())
        });
        // the shorthands
        run.case(&("shorthand", &ns), true, || {
            let t = build(&ns);
            let cfg = Config::from_lang::<QL>();
            let c = QC::default();
            let mut w = fmt::FmtWriter::new(String::new());
            t.format(&mut w.as_formatter(&cfg), &c, &QF::default()).unwrap();
            let s = w.into_inner();
            Run::eq(&Ok(s.clone()), &t.to_string())?;
            let v = t.to_vec().unwrap();
            Run::eq(&s, &v.join("\n"))?;
            let mut w = fmt::FmtWriter::new(String::new());
            t.format_file(&mut w.as_formatter(&cfg), &c).unwrap();
            let s = w.into_inner();
            Run::eq(&Ok(s.clone()), &t.to_file_string())?;
            let v = t.to_file_vec().unwrap();
            Run::eq(&s, &(v.join("\n") + "\n"))?;
            // writing to a sink character by character is writing the text
            use core::fmt::Write as _;
            let chars = || s.chars().chain("\u{7f}\u{80}\u{7ff}\u{800}\u{ffff}\u{10000}".chars());
            let all: String = chars().collect();
            let mut w = fmt::FmtWriter::new(String::new());
            let mut b = fmt::IoWriter::new(Vec::new());
            let mut v = fmt::VecWriter::new();
            let mut short = fmt::IoWriter::new(FailingIo { got: vec![], bytes: cut, chunk, interrupt: false });
            let mut ok = true;
            for c in chars() {
                w.write_char(c).unwrap();
                b.write_char(c).unwrap();
                v.write_char(c).unwrap();
                ok &= short.write_char(c).is_ok();
            }
            Run::eq(&all, &w.into_inner())?;
            Run::eq(&all.as_bytes(), &b.into_inner().as_slice())?;
            Run::eq(&vec![all.clone()], &v.into_vec())?;
            Run::eq(&(all.len() <= cut), &ok)
        });
    }
    run.bound(&format!("{n} random trees of depth at most 3, 4 indentation units, 3 line terminators, plain and as a file; text, line vector and byte writers; sinks failing after 0 to 29 writes or bytes, short and interrupted writes"));
}
fn has_inner(ns: &[Node]) -> bool {
    ns.iter().any(|n| match n {
        Node::Inner(_) => true,
        Node::Str(_, i) | Node::Eval(i) => has_inner(i),
        _ => false,
    })
}
