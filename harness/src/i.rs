//! I01-I05: import headers and the references printed against them. Headers
//! are parsed and references resolved by the scoping rules of each language,
//! written here independently of the crate.
use crate::core::{Rng, Run};
use genco::fmt;
use genco::lang::{csharp, dart, go, java, js, nix, python, rust, swift, Lang};
use genco::tokens::{FormatInto, ItemStr, Register};
use genco::Tokens;
use relative_path_shim::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

type R = Result<(), (String, String)>;
fn bad<T>(want: impl Into<String>, got: impl Into<String>) -> Result<T, (String, String)> {
    Err((want.into(), got.into()))
}

mod relative_path_shim {
    /// `printed`, read from the folder `base`, without `.` and `..`
    pub fn join_norm(base: &str, printed: &str) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for p in base.split('/').chain(printed.split('/')) {
            match p {
                "" | "." => (),
                ".." => {
                    if v.last().map_or(true, |l| l == "..") {
                        v.push("..".into());
                    } else {
                        v.pop();
                    }
                }
                p => v.push(p.into()),
            }
        }
        v
    }
}

/// one import: module, name, alias, mode; `boxed` makes its strings owned
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Imp {
    m: String,
    n: String,
    a: Option<String>,
    mode: u8,
    boxed: bool,
}
impl Imp {
    fn s(&self, s: &str) -> ItemStr {
        if self.boxed {
            ItemStr::from(String::from(s))
        } else {
            thread_local!(static POOL: std::cell::RefCell<BTreeMap<String, &'static str>> = Default::default());
            let t = POOL.with(|p| *p.borrow_mut().entry(s.into()).or_insert_with(|| Box::leak(s.to_string().into_boxed_str())));
            ItemStr::Static(t)
        }
    }
    fn sm(&self) -> ItemStr {
        self.s(&self.m)
    }
    fn sn(&self) -> ItemStr {
        self.s(&self.n)
    }
    fn sa(&self) -> ItemStr {
        self.s(self.a.as_deref().unwrap_or("zz"))
    }
}

/// how an import gets into the stream
#[derive(Debug, Clone, Copy, PartialEq)]
enum Place {
    Line,
    Registered,
    Nested,
    Indented,
    /// on the same line as text
    Call,
}

type Use = (Imp, Place);

trait IL {
    type L: Lang;
    type Cfg: Debug + Clone;
    /// the header text is the same in every order (not: which of several default
    /// imports of a module takes the default clause)
    const FIXED: bool = true;
    /// between the parts of a module name
    const SEP: &'static str = ".";
    fn gen(r: &mut Rng) -> Imp;
    fn cfg(r: &mut Rng) -> Self::Cfg;
    fn put(i: &Imp, t: &mut Tokens<Self::L>);
    fn reg(i: &Imp, t: &mut Tokens<Self::L>);
    fn config(c: &Self::Cfg) -> <Self::L as Lang>::Config;
    /// splits the output into header lines and the lines of the body
    fn split<'a>(_: &Self::Cfg, out: &'a str) -> Result<(Vec<&'a str>, Vec<&'a str>), (String, String)> {
        split_blank(out)
    }
    fn judge(imps: &BTreeSet<Imp>, cfg: &Self::Cfg, header: &[&str], refs: &[(Imp, String)]) -> R;
}

/// header lines, one empty line, body
fn split_blank(out: &str) -> Result<(Vec<&str>, Vec<&str>), (String, String)> {
    let lines: Vec<&str> = out.split('\n').collect();
    let p = lines.iter().position(|l| l.trim_start().starts_with('@'));
    let p = match p {
        Some(p) => p,
        None => return bad("a body", out),
    };
    let (h, b) = lines.split_at(p);
    if b.last() != Some(&"") {
        return bad("a line terminator at the end", out);
    }
    let b = b[..b.len() - 1].to_vec();
    if h.is_empty() {
        return Ok((vec![], b));
    }
    if h.last() != Some(&"") || h.len() < 2 {
        return bad("an empty line between header and body", out);
    }
    Ok((h[..h.len() - 1].to_vec(), b))
}

fn render<I: IL>(uses: &[Use], cfg: &I::Cfg) -> Result<String, (String, String)>
where
    I::L: Lang,
{
    let mut t: Tokens<I::L> = Tokens::new();
    for (k, (i, p)) in uses.iter().enumerate() {
        match p {
            Place::Line | Place::Indented => {
                if *p == Place::Indented {
                    t.indent();
                }
                t.append(format!("@{k}"));
                t.space();
                I::put(i, &mut t);
                if *p == Place::Indented {
                    t.unindent();
                    // keeps two of these from running into one line
                    t.append("@~");
                }
                t.push();
            }
            Place::Registered => I::reg(i, &mut t),
            Place::Nested => {
                let mut n: Tokens<I::L> = Tokens::new();
                n.append(format!("@{k}"));
                n.space();
                I::put(i, &mut n);
                n.push();
                t.append(n);
            }
            Place::Call => {
                t.append(format!("@{k} f("));
                I::put(i, &mut t);
                t.append(")");
                t.push();
            }
        }
    }
    t.append("@end");
    let mut w = fmt::FmtWriter::new(String::new());
    let fc = fmt::Config::from_lang::<I::L>();
    t.format_file(&mut w.as_formatter(&fc), &I::config(cfg)).map_err(|e| ("formatting succeeds".to_string(), format!("{e:?}")))?;
    Ok(w.into_inner())
}

fn check<I: IL>(uses: &[Use], cfg: &I::Cfg, shuffled: &[Use]) -> R {
    let out = render::<I>(uses, cfg)?;
    let (header, body) = I::split(cfg, &out)?;
    let imps: BTreeSet<Imp> = uses.iter().map(|u| Imp { boxed: false, ..u.0.clone() }).collect();
    let mut refs = vec![];
    let mut want: Vec<usize> = uses.iter().enumerate().filter(|(_, u)| u.1 != Place::Registered).map(|(k, _)| k).collect();
    want.reverse();
    for l in body {
        let l = l.trim_start();
        if l == "@~" {
            continue;
        }
        if l == "@end" {
            if !want.is_empty() {
                return bad(format!("references {want:?}"), out.clone());
            }
            continue;
        }
        let k = match want.pop() {
            Some(k) => k,
            None => return bad("no further line", l),
        };
        let pre = if uses[k].1 == Place::Call { format!("@{k} f(") } else { format!("@{k} ") };
        let r = match l.strip_prefix(&pre) {
            Some(r) => r,
            None => return bad(pre, l),
        };
        let r = if uses[k].1 == Place::Call {
            match r.strip_suffix(')') {
                Some(r) => r,
                None => return bad(")", l),
            }
        } else {
            r
        };
        refs.push((Imp { boxed: false, ..uses[k].0.clone() }, r.to_string()));
    }
    I::judge(&imps, cfg, &header, &refs).map_err(|(w, g)| (w, format!("{g}\n{out}")))?;
    // the same imports in another order and number
    let out2 = render::<I>(shuffled, cfg)?;
    let (h2, _) = I::split(cfg, &out2)?;
    I::judge(&imps, cfg, &h2, &[])?;
    if h2 != header && I::FIXED {
        return bad(format!("the same header for the same imports: {header:?}"), format!("{h2:?}"));
    }
    Ok(())
}

fn drive<I: IL>(run: &mut Run, n: usize) {
    let name = std::any::type_name::<I>().rsplit("::").next().unwrap().to_string();
    let mut r = Rng::new(run.seed ^ name.bytes().fold(7u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64)));
    for _ in 0..n {
        let len = match r.below(20) {
            0 | 1 => 0,
            2..=7 => 1 + r.below(2),
            8..=14 => 2 + r.below(4),
            15..=18 => 5 + r.below(12),
            _ => r.int(0, 60) as usize,
        };
        PREV.with(|p| *p.borrow_mut() = (vec![], I::SEP));
        let mut uses: Vec<Use> = vec![];
        for _ in 0..len {
            let i = if !uses.is_empty() && r.chance(15) { Imp { boxed: r.chance(50), ..uses[r.below(uses.len())].0.clone() } } else { I::gen(&mut r) };
            PREV.with(|p| p.borrow_mut().0.push(i.clone()));
            let p = *r.pick(&[Place::Line, Place::Line, Place::Registered, Place::Nested, Place::Indented, Place::Call]);
            uses.push((i, p));
        }
        let cfg = I::cfg(&mut r);
        let mut sh = uses.clone();
        for k in (1..sh.len()).rev() {
            let j = r.below(k + 1);
            sh.swap(k, j);
        }
        for _ in 0..r.below(3) {
            if !sh.is_empty() {
                let x = sh[r.below(sh.len())].clone();
                sh.push(x);
            }
        }
        run.case(&(&name, &cfg, &uses), !uses.is_empty(), || check::<I>(&uses, &cfg, &sh));
    }
}

/// what follows the package clause of a file
fn clause<'a, 'b>(want: Option<String>, h: &'a [&'b str]) -> Result<&'a [&'b str], (String, String)> {
    let want = match want {
        Some(w) => w,
        None => return Ok(h),
    };
    match h {
        [p] if *p == want => Ok(&h[1..]),
        [p, "", _, ..] if *p == want => Ok(&h[2..]),
        _ => bad(format!("{want}, and an empty line after it"), format!("{h:?}")),
    }
}

/// every header line once, and exactly these
fn exact<F: Ord + Debug + Clone>(want: BTreeSet<F>, got: Vec<F>) -> R {
    let set: BTreeSet<F> = got.iter().cloned().collect();
    if set.len() != got.len() {
        return bad("every import once", format!("{got:?}"));
    }
    if set != want {
        return bad(format!("imports {want:?}"), format!("{set:?}"));
    }
    Ok(())
}
fn same(want: &str, got: &str) -> R {
    if want == got {
        Ok(())
    } else {
        bad(format!("reference {want}"), format!("reference {got}"))
    }
}
fn unquote(s: &str) -> Result<String, (String, String)> {
    match s.strip_prefix('"').and_then(|s| s.strip_suffix('"')) {
        Some(t) if !t.contains(['"', '\\', '\n']) => Ok(t.into()),
        _ => bad("a quoted string", s),
    }
}
fn put<L: Lang>(t: &mut Tokens<L>, x: impl FormatInto<L>) {
    t.append(x)
}
fn reg<L: Lang>(t: &mut Tokens<L>, x: impl Register<L>) {
    t.register(x)
}
fn pick(r: &mut Rng, v: &[&str]) -> String {
    (*r.pick(v)).to_string()
}
thread_local!(
    /// imports of the current case, and the separator of module names
    static PREV: std::cell::RefCell<(Vec<Imp>, &'static str)> = std::cell::RefCell::new((vec![], "."));
);
/// only the characters of an identifier, none of it if nothing is left
fn ident(s: &str) -> Option<String> {
    let t: String = s.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '_').take(300).collect();
    Some(t).filter(|t| !t.is_empty() && !t.as_bytes()[0].is_ascii_digit())
}
/// text of the code under test
fn word(r: &mut Rng) -> Option<String> {
    let d = crate::core::dict();
    ident(&d.strs[r.below(d.strs.len())])
}
/// another module name, close to a given one
fn near_module(r: &mut Rng, m: &str, sep: &str) -> String {
    let (scheme, body) = match m.strip_prefix("path:") {
        Some(b) => ("path:", b),
        None => ("", m),
    };
    let parts: Vec<&str> = body.split(sep).collect();
    let d = crate::core::dict();
    let b = match r.below(11) {
        0 => format!("{body}{}", r.pick(&["2", "_", "x", "X"])),
        1 => format!("{body}{sep}{}", r.pick(&["n", "v2", "x", "a", "_"])),
        2 if parts.len() > 1 => parts[..parts.len() - 1].join(sep),
        3 => parts[parts.len() - 1].to_string(),
        4 => format!("{}{body}", r.pick(&["x", "_", "A"])),
        5 => format!("{}{sep}{body}", r.pick(&["n", "a", "x"])),
        6 => match word(r) {
            Some(w) => format!("{body}{sep}{w}"),
            None => body.to_string(),
        },
        7 => format!("{body}{sep}{}", parts[parts.len() - 1]),
        // a path of the code under test, or one below it
        8 => {
            let w = &d.strs[r.below(d.strs.len())];
            let whole = w.contains(sep) && w.split(sep).all(|p| ident(p).as_deref() == Some(p));
            match r.below(3) {
                _ if !whole => body.to_string(),
                0 => w.clone(),
                1 => format!("{w}{sep}{}", parts[parts.len() - 1]),
                _ => format!("{w}{}", r.pick(&["2", "x"])),
            }
        }
        // a part that begins like a character of the code under test
        9 => match ident(&d.chars[r.below(d.chars.len())].to_string()) {
            Some(c) => format!("{body}{sep}{c}{}", r.pick(&["", "1", "2", "x"])),
            None => body.to_string(),
        },
        _ => body.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    };
    // a folder does not take the place of a file
    if !scheme.is_empty() && (!b.ends_with(".js") || !b.starts_with(|c: char| c.is_ascii_alphanumeric())) {
        return m.to_string();
    }
    format!("{scheme}{b}")
}
fn near_name(r: &mut Rng, n: &str, m: &str, prev: &[Imp]) -> String {
    let c = match r.below(8) {
        0 => Some(format!("{n}{}", r.pick(&["2", "_", "x", "X"]))),
        1 => ident(m.rsplit(['.', '/', ':']).next().unwrap()),
        2 => ident(m.split(['.', '/', ':']).next().unwrap()),
        3 => word(r),
        4 if !prev.is_empty() => Some(prev[r.below(prev.len())].n.clone()),
        5 if !prev.is_empty() => prev[r.below(prev.len())].a.clone(),
        6 => Some(n.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()),
        _ => Some(format!("{n}{}", r.below(100))),
    };
    c.unwrap_or_else(|| n.to_string())
}
fn imp(r: &mut Rng, ms: &[&str], ns: &[&str], aliases: &[&str], modes: usize) -> Imp {
    let (mut m, mut n) = (pick(r, ms), pick(r, ns));
    let mut a = if aliases.is_empty() || r.chance(50) { None } else { Some(pick(r, aliases)) };
    let (prev, sep) = PREV.with(|p| p.borrow().clone());
    if r.chance(30) {
        if !prev.is_empty() && r.chance(60) {
            m = prev[r.below(prev.len())].m.clone();
        }
        if r.chance(70) {
            m = near_module(r, &m, sep);
        }
    }
    if r.chance(20) {
        n = near_name(r, &n, &m, &prev);
    }
    if a.is_some() && r.chance(20) {
        a = a.map(|a| near_name(r, &a, &m, &prev));
    }
    // an alias differs from the name it stands for
    let a = a.filter(|a| *a != n && !m.ends_with(a.as_str()));
    Imp { m, n, a, mode: r.below(modes) as u8, boxed: r.chance(30) }
}
/// a module the file itself is, close to the ones it imports
fn own(r: &mut Rng, sep: &str) -> Option<String> {
    let prev = PREV.with(|p| p.borrow().0.clone());
    if prev.is_empty() {
        return None;
    }
    let m = prev[r.below(prev.len())].m.clone();
    Some(if r.chance(40) { m } else { near_module(r, &m, sep) })
}

struct C;
impl IL for C {
    type L = genco::lang::C;
    const SEP: &'static str = "/";
    type Cfg = ();
    fn gen(r: &mut Rng) -> Imp {
        imp(r, &["a.h", "b.h", "b/a.h", "stdio.h", "a"], &["x", "y", "a"], &[], 2)
    }
    fn cfg(_: &mut Rng) {}
    fn put(i: &Imp, t: &mut Tokens<Self::L>) {
        put(t, mk_c(i))
    }
    fn reg(i: &Imp, t: &mut Tokens<Self::L>) {
        reg(t, mk_c(i))
    }
    fn config(_: &()) -> <Self::L as Lang>::Config {
        Default::default()
    }
    fn judge(imps: &BTreeSet<Imp>, _: &(), header: &[&str], refs: &[(Imp, String)]) -> R {
        let mut got = vec![];
        for l in header {
            let x = match l.strip_prefix("#include ") {
                Some(x) => x,
                None => return bad("#include", *l),
            };
            got.push(match x.strip_prefix('<').and_then(|x| x.strip_suffix('>')) {
                Some(x) => (x.to_string(), true),
                None => (unquote(x)?, false),
            });
        }
        exact(imps.iter().map(|i| (i.m.clone(), i.mode == 1)).collect(), got)?;
        refs.iter().try_for_each(|(i, r)| same(&i.n, r))
    }
}
fn mk_c(i: &Imp) -> genco::lang::c::Import {
    if i.mode == 1 {
        genco::lang::c::include_system(i.sm(), i.sn())
    } else {
        genco::lang::c::include(i.sm(), i.sn())
    }
}

struct Go;
impl IL for Go {
    type L = genco::lang::Go;
    const SEP: &'static str = "/";
    type Cfg = Option<String>;
    fn gen(r: &mut Rng) -> Imp {
        imp(r, &["a", "b", "x/a", "x/b/c", "a/b"], &["X", "Y"], &[], 1)
    }
    fn cfg(r: &mut Rng) -> Self::Cfg {
        if r.chance(40) {
            own(r, "/").map(|m| m.rsplit('/').next().unwrap().to_string())
        } else {
            None
        }
    }
    fn put(i: &Imp, t: &mut Tokens<Self::L>) {
        put(t, go::import(i.sm(), i.sn()))
    }
    fn reg(i: &Imp, t: &mut Tokens<Self::L>) {
        reg(t, go::import(i.sm(), i.sn()))
    }
    fn config(c: &Self::Cfg) -> <Self::L as Lang>::Config {
        match c {
            Some(p) => go::Config::default().with_package(p.clone()),
            None => Default::default(),
        }
    }
    fn judge(imps: &BTreeSet<Imp>, cfg: &Self::Cfg, header: &[&str], refs: &[(Imp, String)]) -> R {
        let header = clause(cfg.as_ref().map(|p| format!("package {p}")), header)?;
        let mut got = vec![];
        for l in header {
            match l.strip_prefix("import ") {
                Some(x) => got.push(unquote(x)?),
                None => return bad("import", *l),
            }
        }
        exact(imps.iter().map(|i| i.m.clone()).collect(), got)?;
        refs.iter().try_for_each(|(i, r)| {
            let parts: Vec<&str> = i.m.split('/').collect();
            same(&format!("{}.{}", parts[parts.len() - 1], i.n), r)
        })
    }
}

struct Swift;
impl IL for Swift {
    type L = genco::lang::Swift;
    type Cfg = ();
    fn gen(r: &mut Rng) -> Imp {
        imp(r, &["Foundation", "UIKit", "A"], &["X", "Y", "A"], &[], 1)
    }
    fn cfg(_: &mut Rng) {}
    fn put(i: &Imp, t: &mut Tokens<Self::L>) {
        put(t, swift::import(i.sm(), i.sn()))
    }
    fn reg(i: &Imp, t: &mut Tokens<Self::L>) {
        reg(t, swift::import(i.sm(), i.sn()))
    }
    fn config(_: &()) -> <Self::L as Lang>::Config {
        Default::default()
    }
    fn judge(imps: &BTreeSet<Imp>, _: &(), header: &[&str], refs: &[(Imp, String)]) -> R {
        let mut got = vec![];
        for l in header {
            match l.strip_prefix("import ") {
                Some(x) => got.push(x.to_string()),
                None => return bad("import", *l),
            }
        }
        exact(imps.iter().map(|i| i.m.clone()).collect(), got)?;
        refs.iter().try_for_each(|(i, r)| same(&i.n, r))
    }
}

struct Dart;
fn mk_dart(i: &Imp) -> dart::Import {
    let x = dart::import(i.sm(), i.sn());
    match &i.a {
        Some(_) => x.with_alias(i.sa()),
        None => x,
    }
}
impl IL for Dart {
    type L = genco::lang::Dart;
    const SEP: &'static str = "/";
    type Cfg = ();
    fn gen(r: &mut Rng) -> Imp {
        imp(r, &["dart:core", "dart:math", "a.dart", "package:b/c.dart"], &["X", "Y", "int"], &["p", "q"], 1)
    }
    fn cfg(_: &mut Rng) {}
    fn put(i: &Imp, t: &mut Tokens<Self::L>) {
        put(t, mk_dart(i))
    }
    fn reg(i: &Imp, t: &mut Tokens<Self::L>) {
        reg(t, mk_dart(i))
    }
    fn config(_: &()) -> <Self::L as Lang>::Config {
        Default::default()
    }
    fn judge(imps: &BTreeSet<Imp>, _: &(), header: &[&str], refs: &[(Imp, String)]) -> R {
        let mut got = vec![];
        for l in header {
            let x = match l.strip_prefix("import ").and_then(|x| x.strip_suffix(';')) {
                Some(x) => x,
                None => return bad("import", *l),
            };
            got.push(match x.split_once(" as ") {
                Some((p, a)) => (unquote(p)?, Some(a.to_string())),
                None => (unquote(x)?, None),
            });
        }
        let core = |p: &str| p == "dart:core";
        let mut want: BTreeSet<(String, Option<String>)> = imps.iter().filter(|i| !core(&i.m) || i.a.is_some()).map(|i| (i.m.clone(), i.a.clone())).collect();
        if imps.iter().any(|i| core(&i.m) && i.a.is_some()) {
            // an explicit import of dart:core takes away the implicit one
            want.insert(("dart:core".into(), None));
        }
        exact(want, got)?;
        refs.iter().try_for_each(|(i, r)| match &i.a {
            Some(a) => same(&format!("{a}.{}", i.n), r),
            None => same(&i.n, r),
        })
    }
}

struct Java;
impl IL for Java {
    type L = genco::lang::Java;
    type Cfg = Option<String>;
    fn gen(r: &mut Rng) -> Imp {
        imp(r, &["java.lang", "java.util", "a", "a.b", "com.z"], &["X", "Y", "String", "List"], &[], 1)
    }
    fn cfg(r: &mut Rng) -> Self::Cfg {
        match r.below(5) {
            0 => Some("a".into()),
            1 => Some("a.b".into()),
            2 if r.chance(20) => Some("java.lang".into()),
            2 | 3 => own(r, "."),
            _ => None,
        }
    }
    fn put(i: &Imp, t: &mut Tokens<Self::L>) {
        put(t, java::import(i.sm(), i.sn()))
    }
    fn reg(i: &Imp, t: &mut Tokens<Self::L>) {
        reg(t, java::import(i.sm(), i.sn()))
    }
    fn config(c: &Self::Cfg) -> <Self::L as Lang>::Config {
        match c {
            Some(p) => java::Config::default().with_package(p.clone()),
            None => Default::default(),
        }
    }
    fn judge(imps: &BTreeSet<Imp>, cfg: &Self::Cfg, header: &[&str], refs: &[(Imp, String)]) -> R {
        let h = clause(cfg.as_ref().map(|p| format!("package {p};")), header)?;
        let universe: BTreeSet<(&str, &str)> = imps.iter().map(|i| (i.m.as_str(), i.n.as_str())).collect();
        let mut by_name: BTreeMap<&str, &str> = BTreeMap::new();
        for l in h {
            let x = match l.strip_prefix("import ").and_then(|x| x.strip_suffix(';')).and_then(|x| x.rsplit_once('.')) {
                Some(x) => x,
                None => return bad("import", *l),
            };
            if !universe.contains(&x) {
                return bad("an import of the stream", *l);
            }
            if by_name.insert(x.1, x.0).is_some() {
                return bad("a simple name imported once", *l);
            }
        }
        let own = cfg.as_deref();
        for (i, r) in refs {
            let got = match r.rsplit_once('.') {
                Some((p, n)) => (p, n),
                None => {
                    let n = r.as_str();
                    if let Some(p) = by_name.get(n) {
                        (*p, n)
                    } else if own.is_some_and(|p| universe.contains(&(p, n))) {
                        (own.unwrap(), n)
                    } else if universe.contains(&("java.lang", n)) {
                        ("java.lang", n)
                    } else {
                        return bad(format!("a reference to {}.{}", i.m, i.n), format!("{n}, which is not imported"));
                    }
                }
            };
            if got != (i.m.as_str(), i.n.as_str()) {
                return bad(format!("a reference to {}.{}", i.m, i.n), format!("{r}, which is {}.{}", got.0, got.1));
            }
            if imps.iter().all(|o| o.n != i.n || o.m == i.m) && r.contains('.') {
                return bad(format!("the simple name {}, which only one package has", i.n), r.clone());
            }
        }
        for i in imps {
            let implicit = i.m == "java.lang" || own == Some(i.m.as_str());
            if imps.iter().all(|o| o.n != i.n || o.m == i.m) && !implicit && by_name.get(i.n.as_str()) != Some(&i.m.as_str()) {
                return bad(format!("import {}.{}", i.m, i.n), "no such import");
            }
        }
        Ok(())
    }
}

struct Csharp;
fn mk_cs(i: &Imp) -> csharp::Import {
    let x = csharp::import(i.sm(), i.sn());
    if i.mode == 1 {
        x.qualified()
    } else {
        x
    }
}
impl IL for Csharp {
    type L = genco::lang::Csharp;
    type Cfg = Option<String>;
    fn gen(r: &mut Rng) -> Imp {
        let mut i = imp(r, &["System", "System.IO", "A", "A.B", "A.B.C", "Zed"], &["X", "Y", "File"], &[], 2);
        if r.chance(60) {
            i.mode = 0;
        }
        i
    }
    fn cfg(r: &mut Rng) -> Self::Cfg {
        match r.below(5) {
            0 => Some("A.B".into()),
            1 => Some("A".into()),
            2 => Some("A.B.C".into()),
            3 => own(r, "."),
            _ => None,
        }
    }
    fn put(i: &Imp, t: &mut Tokens<Self::L>) {
        put(t, mk_cs(i))
    }
    fn reg(i: &Imp, t: &mut Tokens<Self::L>) {
        reg(t, mk_cs(i))
    }
    fn config(c: &Self::Cfg) -> <Self::L as Lang>::Config {
        match c {
            Some(p) => csharp::Config::default().with_namespace(p.clone()),
            None => Default::default(),
        }
    }
    fn split<'a>(cfg: &Self::Cfg, out: &'a str) -> Result<(Vec<&'a str>, Vec<&'a str>), (String, String)> {
        match cfg {
            None => split_blank(out),
            Some(n) => {
                let lines: Vec<&str> = out.split('\n').collect();
                let open = format!("namespace {n} {{");
                let p = match lines.iter().position(|l| *l == open) {
                    Some(p) => p,
                    None => return bad(open, out),
                };
                if lines[lines.len() - 1] != "" || lines[lines.len() - 2] != "}" {
                    return bad("a closing brace", out);
                }
                let b = lines[p + 1..lines.len() - 2].to_vec();
                if p == 0 {
                    return Ok((vec![], b));
                }
                if p < 2 || lines[p - 1] != "" {
                    return bad("an empty line after the header", out);
                }
                Ok((lines[..p - 1].to_vec(), b))
            }
        }
    }
    fn judge(imps: &BTreeSet<Imp>, cfg: &Self::Cfg, header: &[&str], refs: &[(Imp, String)]) -> R {
        let universe: BTreeSet<(&str, &str)> = imps.iter().map(|i| (i.m.as_str(), i.n.as_str())).collect();
        let mut usings: BTreeSet<&str> = BTreeSet::new();
        for l in header {
            let x = match l.strip_prefix("using ").and_then(|x| x.strip_suffix(';')) {
                Some(x) => x,
                None => return bad("using", *l),
            };
            if !universe.iter().any(|u| u.0 == x) {
                return bad("a namespace of the stream", *l);
            }
            if !usings.insert(x) {
                return bad("a namespace once", *l);
            }
        }
        for (i, r) in refs {
            let got = match r.rsplit_once('.') {
                Some(x) => x,
                None => {
                    let n = r.as_str();
                    // the namespace of the file and those around it, then the usings
                    let mut scope = cfg.as_deref();
                    let mut found = None;
                    while let Some(s) = scope {
                        if universe.contains(&(s, n)) {
                            found = Some(s);
                            break;
                        }
                        scope = s.rsplit_once('.').map(|x| x.0);
                    }
                    match found {
                        Some(s) => (s, n),
                        None => {
                            let c: Vec<&&str> = usings.iter().filter(|u| universe.contains(&(**u, n))).collect();
                            match c[..] {
                                [u] => (*u, n),
                                _ => return bad(format!("a reference to {}.{}", i.m, i.n), format!("{n}, which is one of {c:?}")),
                            }
                        }
                    }
                }
            };
            if got != (i.m.as_str(), i.n.as_str()) {
                return bad(format!("a reference to {}.{}", i.m, i.n), format!("{r}, which is {}.{}", got.0, got.1));
            }
            let sole = imps.iter().all(|o| o.n != i.n || o.m == i.m);
            if i.mode == 1 && !r.contains('.') {
                return bad("a qualified reference", r.clone());
            }
            if i.mode == 0 && sole && r.contains('.') {
                return bad(format!("the simple name {}, which only one namespace has", i.n), r.clone());
            }
        }
        Ok(())
    }
}

struct Js;
fn mk_js(i: &Imp) -> js::Import {
    let m = match i.m.strip_prefix("path:") {
        Some(p) => js::Module::Path(p.into()),
        None => match (i.mode as usize + i.n.len() + i.n.bytes().next().unwrap_or(0) as usize) % 4 {
            0 => js::Module::Global(i.sm()),
            1 => js::Module::from(i.m.as_str()),
            2 => js::Module::from(i.m.clone()),
            _ => js::Module::from(i.sm()),
        },
    };
    let x = js::import(m, i.sn());
    match i.mode {
        1 => x.into_default(),
        2 => x.into_wildcard(),
        _ => match &i.a {
            Some(_) => x.with_alias(i.sa()),
            None => x,
        },
    }
}
impl IL for Js {
    type L = genco::lang::JavaScript;
    const SEP: &'static str = "/";
    const FIXED: bool = false;
    type Cfg = Option<String>;
    fn gen(r: &mut Rng) -> Imp {
        imp(r, &["a", "b", "@s/c", "path:foo/bar.js", "path:bar.js", "path:foo/x/y.js"], &["x", "y", "z"], &["p", "x"], 3)
    }
    fn cfg(r: &mut Rng) -> Self::Cfg {
        match r.below(4) {
            0 => Some("foo/baz.js".into()),
            1 => Some("foo".into()),
            2 => Some("q/r/s".into()),
            _ => None,
        }
    }
    fn put(i: &Imp, t: &mut Tokens<Self::L>) {
        put(t, mk_js(i))
    }
    fn reg(i: &Imp, t: &mut Tokens<Self::L>) {
        reg(t, mk_js(i))
    }
    fn config(c: &Self::Cfg) -> <Self::L as Lang>::Config {
        match c {
            Some(p) => js::Config::default().with_module_path(p.clone()),
            None => Default::default(),
        }
    }
    fn judge(imps: &BTreeSet<Imp>, cfg: &Self::Cfg, header: &[&str], refs: &[(Imp, String)]) -> R {
        // bindings: (module, exported, local)
        let known: BTreeSet<&str> = imps.iter().map(|i| i.m.as_str()).collect();
        let mut got: Vec<(String, String, String)> = vec![];
        for l in header {
            let x = match l.strip_prefix("import ").and_then(|x| x.strip_suffix(';')).and_then(|x| x.rsplit_once(" from ")) {
                Some(x) => x,
                None => return bad("import .. from ..;", *l),
            };
            let text = unquote(x.1)?;
            let m = match known.iter().find(|k| match k.strip_prefix("path:") {
                None => **k == text,
                Some(p) => match cfg {
                    None => p == text,
                    Some(base) => join_norm(base, &text) == join_norm("", p),
                },
            }) {
                Some(m) => m.to_string(),
                None => return bad(format!("a module of {known:?}"), *l),
            };
            let mut clause = x.0;
            if let Some(n) = clause.strip_prefix("* as ") {
                got.push((m, "*".into(), n.into()));
                continue;
            }
            if !clause.starts_with('{') {
                let (d, rest) = match clause.split_once(", ") {
                    Some((d, rest)) => (d, Some(rest)),
                    None => (clause, None),
                };
                got.push((m.clone(), "default".into(), d.into()));
                match rest {
                    None => continue,
                    Some(rest) => clause = rest,
                }
            }
            let inner = match clause.strip_prefix('{').and_then(|c| c.strip_suffix('}')) {
                Some(c) if !c.is_empty() => c,
                _ => return bad("{..}", *l),
            };
            for e in inner.split(", ") {
                match e.split_once(" as ") {
                    Some((n, a)) => got.push((m.clone(), n.into(), a.into())),
                    None => got.push((m.clone(), e.into(), e.into())),
                }
            }
        }
        let b = |i: &Imp| match i.mode {
            1 => (i.m.clone(), "default".to_string(), i.n.clone()),
            2 => (i.m.clone(), "*".to_string(), i.n.clone()),
            _ => (i.m.clone(), i.n.clone(), i.a.clone().unwrap_or(i.n.clone())),
        };
        exact(imps.iter().map(b).collect(), got)?;
        refs.iter().try_for_each(|(i, r)| same(&b(i).2, r))
    }
}

struct Py;
enum PyI {
    I(python::Import),
    M(python::ImportModule),
}
fn mk_py(i: &Imp) -> PyI {
    let x = python::import(i.sm(), i.sn());
    match (i.mode, &i.a) {
        (1, Some(_)) => PyI::I(x.with_module_alias(i.sa())),
        (1, None) => PyI::I(x.qualified()),
        (2, Some(_)) => PyI::M(python::import_module(i.sm()).with_alias(i.sa())),
        (2, None) => PyI::M(python::import_module(i.sm())),
        // the last of name alias, module alias and qualified counts
        (3, Some(_)) => PyI::I(x.with_module_alias("gone").with_alias(i.sa())),
        (3, None) => PyI::I(x.with_alias("gone").qualified()),
        (_, Some(_)) => PyI::I(x.with_alias(i.sa())),
        _ => PyI::I(x),
    }
}
impl IL for Py {
    type L = genco::lang::Python;
    type Cfg = ();
    fn gen(r: &mut Rng) -> Imp {
        imp(r, &["a", "b.c", "collections", "a.b"], &["x", "y", "z"], &["p", "x"], 4)
    }
    fn cfg(_: &mut Rng) {}
    fn put(i: &Imp, t: &mut Tokens<Self::L>) {
        match mk_py(i) {
            PyI::I(x) => put(t, x),
            PyI::M(x) => put(t, x),
        }
    }
    fn reg(i: &Imp, t: &mut Tokens<Self::L>) {
        match mk_py(i) {
            PyI::I(x) => reg(t, x),
            PyI::M(x) => reg(t, x),
        }
    }
    fn config(_: &()) -> <Self::L as Lang>::Config {
        Default::default()
    }
    fn judge(imps: &BTreeSet<Imp>, _: &(), header: &[&str], refs: &[(Imp, String)]) -> R {
        // bindings: (module, Some(name) | None, local)
        type B = (String, Option<String>, String);
        let mut got: Vec<B> = vec![];
        let alias = |e: &str| match e.split_once(" as ") {
            Some((n, a)) => (n.to_string(), a.to_string()),
            None => (e.to_string(), e.to_string()),
        };
        for l in header {
            if let Some((m, rest)) = l.strip_prefix("from ").and_then(|x| x.split_once(" import ")) {
                for e in rest.split(", ") {
                    let (n, a) = alias(e);
                    got.push((m.into(), Some(n), a));
                }
            } else if let Some(x) = l.strip_prefix("import ") {
                let (n, a) = alias(x);
                got.push((n, None, a));
            } else {
                return bad("import", *l);
            }
        }
        let b = |i: &Imp| -> B {
            match (i.mode, &i.a) {
                (0, Some(a)) | (3, Some(a)) => (i.m.clone(), Some(i.n.clone()), a.clone()),
                (0, None) => (i.m.clone(), Some(i.n.clone()), i.n.clone()),
                (_, Some(a)) => (i.m.clone(), None, a.clone()),
                (_, None) => (i.m.clone(), None, i.m.clone()),
            }
        };
        exact(imps.iter().map(b).collect(), got)?;
        refs.iter().try_for_each(|(i, r)| {
            let (_, what, local) = b(i);
            match (what, i.mode) {
                (Some(_), _) | (None, 2) => same(&local, r),
                (None, _) => same(&format!("{local}.{}", i.n), r),
            }
        })
    }
}

struct Rs;
fn mk_rs(i: &Imp) -> rust::Import {
    let x = rust::import(i.sm(), i.sn());
    match (i.mode, &i.a) {
        (1, _) => x.qualified(),
        (2, None) => x.direct(),
        (2, Some(_)) => x.with_module_alias(i.sa()),
        (3, Some(_)) => x.with_alias("gone").with_module_alias(i.sa()),
        (3, None) => x.with_alias("gone").qualified(),
        (_, Some(_)) => x.with_alias(i.sa()),
        _ => x,
    }
}
impl IL for Rs {
    type L = genco::lang::Rust;
    const SEP: &'static str = "::";
    type Cfg = bool;
    fn gen(r: &mut Rng) -> Imp {
        imp(r, &["a", "std::collections", "b", "b::c", "a::b::c"], &["X", "Y", "Z"], &["p", "X", "c"], 4)
    }
    fn cfg(r: &mut Rng) -> bool {
        r.chance(40)
    }
    fn put(i: &Imp, t: &mut Tokens<Self::L>) {
        put(t, mk_rs(i))
    }
    fn reg(i: &Imp, t: &mut Tokens<Self::L>) {
        reg(t, mk_rs(i))
    }
    fn config(c: &bool) -> <Self::L as Lang>::Config {
        let c2 = rust::Config::default();
        if *c {
            c2.with_default_import(rust::ImportMode::Qualified)
        } else {
            c2
        }
    }
    fn judge(imps: &BTreeSet<Imp>, cfg: &bool, header: &[&str], refs: &[(Imp, String)]) -> R {
        // bindings: (path, local name)
        type B = (String, String);
        let last = |p: &str| p.rsplit("::").next().unwrap().to_string();
        let mut got: Vec<B> = vec![];
        for l in header {
            let x = match l.strip_prefix("use ").and_then(|x| x.strip_suffix(';')) {
                Some(x) => x,
                None => return bad("use", *l),
            };
            let mut one = |path: &str, alias: Option<&str>| {
                let p = path.strip_suffix("::self").unwrap_or(path).to_string();
                let local = alias.map(|a| a.to_string()).unwrap_or_else(|| last(&p));
                got.push((p, local));
            };
            let mut tree = |p: &str, prefix: &str| match p.split_once(" as ") {
                Some((p, a)) => one(&format!("{prefix}{p}"), Some(a)),
                None => one(&format!("{prefix}{p}"), None),
            };
            match x.split_once("::{") {
                Some((m, rest)) => match rest.strip_suffix('}') {
                    Some(inner) => inner.split(", ").for_each(|e| tree(e, &format!("{m}::"))),
                    None => return bad("use ..::{..};", *l),
                },
                None => tree(x, ""),
            }
        }
        // what an import asks for: the binding, and the reference through it
        let ask = |i: &Imp| -> (Option<B>, String) {
            let module = |local: Option<&String>| match local {
                Some(a) => (Some((i.m.clone(), a.clone())), format!("{a}::{}", i.n)),
                None if i.m.contains("::") => (Some((i.m.clone(), last(&i.m))), format!("{}::{}", last(&i.m), i.n)),
                // a crate is in scope by itself
                None => (None, format!("{}::{}", i.m, i.n)),
            };
            let name = |a: Option<&String>| {
                let local = a.unwrap_or(&i.n).clone();
                (Some((format!("{}::{}", i.m, i.n), local.clone())), local)
            };
            match (i.mode, &i.a) {
                (1, _) => module(None),
                (2, None) => name(None),
                (2, Some(a)) => module(Some(a)),
                (3, Some(a)) => module(Some(a)),
                (3, None) => module(None),
                (_, Some(a)) => name(Some(a)),
                (_, None) if *cfg => module(None),
                (_, None) => name(None),
            }
        };
        exact(imps.iter().filter_map(|i| ask(i).0).collect(), got)?;
        refs.iter().try_for_each(|(i, r)| same(&ask(i).1, r))
    }
}

struct Nix;
fn mk_nix(i: &Imp) -> nix::Import {
    match i.mode {
        0 => nix::argument(i.sn()),
        1 => nix::inherit(i.sm(), i.sn()),
        2 => nix::with(i.sm(), i.sn()),
        3 => {
            let mut t = nix::Tokens::new();
            t.append("v");
            t.space();
            t.append(i.sm());
            nix::variable(i.sn(), t)
        }
        // a variable whose value is another import
        4 => nix::variable(i.sn(), { let mut t = nix::Tokens::new(); t.append(nix::inherit(i.sm(), i.sn())); t }),
        5 => nix::variable(i.sn(), { let mut t = nix::Tokens::new(); t.append("w"); t.space(); t.append(mk_nix(&Imp { mode: 4, n: format!("{}d", i.n), ..i.clone() })); t }),
        _ => nix::variable(i.sn(), { let mut t = nix::Tokens::new(); t.append(nix::with(i.sm(), i.sn())); t.append(" + "); t.append(nix::argument(i.s("arg2"))); t }),
    }
}
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
enum NixB {
    Arg(String),
    With(String),
    Inherit(String, String),
    Var(String, String),
}
fn nix_asks(i: &Imp, out: &mut Vec<NixB>) {
    let head = |p: &str| p.split('.').next().unwrap().to_string();
    let (m, n) = (i.m.clone(), i.n.clone());
    match i.mode {
        0 => out.push(NixB::Arg(n)),
        1 => out.extend([NixB::Arg(head(&m)), NixB::Inherit(m, n)]),
        2 => out.extend([NixB::Arg(head(&m)), NixB::With(m)]),
        3 => out.push(NixB::Var(n, format!("v {m}"))),
        4 => {
            out.push(NixB::Var(n.clone(), n.clone()));
            out.extend([NixB::Arg(head(&m)), NixB::Inherit(m, n)])
        }
        5 => {
            out.push(NixB::Var(n.clone(), format!("w {n}d")));
            nix_asks(&Imp { mode: 4, n: format!("{}d", i.n), ..i.clone() }, out)
        }
        _ => {
            out.push(NixB::Var(n.clone(), format!("{n} + arg2")));
            out.extend([NixB::Arg(head(&m)), NixB::With(m), NixB::Arg("arg2".into())])
        }
    }
}
impl IL for Nix {
    type L = genco::lang::Nix;
    type Cfg = bool;
    fn gen(r: &mut Rng) -> Imp {
        let mut i = imp(r, &["pkgs", "lib.types", "pkgs.stdenv.x", "lib"], &["x", "y", "pkgs"], &[], 7);
        if i.mode >= 3 {
            // one value per variable
            i.n = format!("{}{}{}", i.n, i.mode, i.m.replace('.', "_"));
        }
        i
    }
    fn cfg(r: &mut Rng) -> bool {
        r.chance(30)
    }
    fn put(i: &Imp, t: &mut Tokens<Self::L>) {
        put(t, mk_nix(i))
    }
    fn reg(i: &Imp, t: &mut Tokens<Self::L>) {
        reg(t, mk_nix(i))
    }
    fn config(c: &bool) -> <Self::L as Lang>::Config {
        nix::Config::default().with_scoped(*c)
    }
    fn judge(imps: &BTreeSet<Imp>, scoped: &bool, header: &[&str], refs: &[(Imp, String)]) -> R {
        let mut got = vec![];
        let mut ls = header.iter().peekable();
        let no = |l: Option<&&&str>| bad::<()>("{ a, ... }: with ..; let .. in", format!("{l:?}"));
        if !*scoped {
            if ls.next() != Some(&"{") {
                return no(None);
            }
            loop {
                match ls.next() {
                    Some(&"    ...") => break,
                    Some(l) => match l.strip_prefix("    ").and_then(|l| l.strip_suffix(',')) {
                        Some(a) => got.push(NixB::Arg(a.into())),
                        None => return no(Some(&l)),
                    },
                    None => return no(None),
                }
            }
            if ls.next() != Some(&"}:") {
                return no(None);
            }
        }
        let mut in_let = false;
        let mut done = false;
        let mut prev_blank = false;
        for l in ls {
            if done {
                return bad("nothing after in", *l);
            }
            if *l == "" {
                if prev_blank || in_let {
                    return bad("one empty line", format!("{header:?}"));
                }
                prev_blank = true;
                continue;
            }
            prev_blank = false;
            if in_let {
                if *l == "in" {
                    in_let = false;
                    done = true;
                    continue;
                }
                let x = match l.strip_prefix("    ").and_then(|x| x.strip_suffix(';')) {
                    Some(x) => x,
                    None => return no(Some(&l)),
                };
                if let Some((p, n)) = x.strip_prefix("inherit (").and_then(|x| x.split_once(") ")) {
                    got.push(NixB::Inherit(p.into(), n.into()));
                } else if let Some((n, v)) = x.split_once(" = ") {
                    got.push(NixB::Var(n.into(), v.into()));
                } else {
                    return no(Some(&l));
                }
            } else if *l == "let" {
                in_let = true;
            } else if let Some(x) = l.strip_prefix("with ").and_then(|x| x.strip_suffix(';')) {
                got.push(NixB::With(x.into()));
            } else {
                return no(Some(&l));
            }
        }
        if in_let {
            return no(None);
        }
        let mut want = vec![];
        imps.iter().for_each(|i| nix_asks(i, &mut want));
        let want: BTreeSet<NixB> = want.into_iter().filter(|b| !*scoped || !matches!(b, NixB::Arg(_))).collect();
        exact(want, got)?;
        refs.iter().try_for_each(|(i, r)| same(&i.n, r))
    }
}

fn n(run: &Run) -> usize {
    if run.thorough {
        150_000
    } else {
        12_000
    }
}
const B: &str = "random sets of up to 60 imports over pools of a few modules, names and aliases and near variants of these, printed, nested or registered, strings owned or static, each with the same imports in another order and number";
pub fn i01(run: &mut Run) {
    let k = n(run);
    drive::<C>(run, k);
    drive::<Go>(run, k);
    drive::<Swift>(run, k / 2);
    drive::<Dart>(run, k);
    run.bound(B);
}
pub fn i02(run: &mut Run) {
    let k = n(run);
    drive::<Java>(run, k);
    drive::<Csharp>(run, k);
    run.bound(B);
}
pub fn i03(run: &mut Run) {
    let k = n(run);
    drive::<Js>(run, k);
    drive::<Py>(run, k);
    run.bound(B);
}
pub fn i04(run: &mut Run) {
    let k = n(run);
    drive::<Rs>(run, k);
    run.bound(B);
}
pub fn i05(run: &mut Run) {
    let k = n(run);
    drive::<Nix>(run, k);
    run.bound(B);
}
