//! Mechanical extractor: reads Rust source (the macro-expanded crate, or one
//! plain source file), and dumps every function and type definition in a form
//! Verus can read. See DESIGN.md ("What the extraction drops") for the exact
//! list of rewrites performed here.
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

mod reading;

/// methods of str that take a pattern: the verifier has no contract for them, the units name their own
const XSTR: &[&str] = &["rsplit", "split", "strip_prefix", "starts_with", "ends_with", "rsplit_once", "split_once"];

struct FnDef {
    module: String,
    self_ty: String,
    trait_: String,
    name: String,
    sig: Signature,
    block: Block,
    impl_generics: String,
    notes: BTreeSet<String>,
}

impl FnDef {
    fn key(&self) -> String {
        format!("{}|{}|{}|{}", self.module, self.self_ty, self.trait_, self.name)
    }
}

#[derive(Default)]
struct Db {
    fns: Vec<FnDef>,
    types: BTreeMap<String, Value>,
    consts: BTreeMap<String, Value>,
    /// (struct or variant, field) where the field is an Option
    opt_fields: BTreeSet<(String, String)>,
    /// fields that are booleans
    bool_fields: BTreeSet<String>,
}

fn opt_type(t: &Type) -> bool {
    matches!(t, Type::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "Option"))
}

thread_local! {
    /// local names of the function at hand that are Options, going by declared types
    static OPTS: std::cell::RefCell<BTreeSet<String>> = Default::default();
    static BOOLS: std::cell::RefCell<BTreeSet<String>> = Default::default();
}

struct FindOpts<'a> {
    db: &'a Db,
    found: BTreeSet<String>,
}
impl<'a, 'b> syn::visit::Visit<'b> for FindOpts<'a> {
    fn visit_pat_type(&mut self, p: &'b PatType) {
        if let (Pat::Ident(i), true) = (&*p.pat, opt_type(&p.ty)) {
            self.found.insert(i.ident.to_string());
        }
        syn::visit::visit_pat_type(self, p);
    }
    fn visit_pat_struct(&mut self, p: &'b PatStruct) {
        let n = p.path.segments.last().unwrap().ident.to_string();
        for f in &p.fields {
            if let (Member::Named(m), Pat::Ident(i)) = (&f.member, &*f.pat) {
                if self.db.opt_fields.contains(&(n.clone(), m.to_string())) {
                    self.found.insert(i.ident.to_string());
                }
            }
        }
        syn::visit::visit_pat_struct(self, p);
    }
}

fn last_seg_ty(t: &Type) -> String {
    struct Strip;
    impl VisitMut for Strip {
        fn visit_path_mut(&mut self, p: &mut Path) {
            visit_mut::visit_path_mut(self, p);
            if p.segments.len() > 1 && p.segments.first().map(|s| s.arguments.is_empty()).unwrap_or(false) {
                // keep `L::Item` style paths
                let first = p.segments.first().unwrap().ident.to_string();
                if first.chars().next().unwrap().is_lowercase() {
                    let l = p.segments.last().unwrap().clone();
                    p.leading_colon = None;
                    p.segments.clear();
                    p.segments.push(l);
                }
            }
        }
        fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
            *l = Lifetime::new("'_", Span::call_site());
        }
    }
    let mut t = t.clone();
    Strip.visit_type_mut(&mut t);
    let mut s = t.to_token_stream().to_string();
    s = s.replace("'_", "");
    s.retain(|c| !c.is_whitespace());
    s = s.replace("<,", "<").replace("<>", "").replace(",>", ">");
    s
}

fn path_short(p: &Path) -> String {
    let l = p.segments.last().unwrap();
    let t: Type = parse2(l.to_token_stream()).unwrap();
    last_seg_ty(&t)
}

fn collect_items(items: &[Item], module: &str, db: &mut Db) {
    let sub = |n: &str| {
        if module.is_empty() {
            n.to_string()
        } else {
            format!("{}::{}", module, n)
        }
    };
    for it in items {
        match it {
            Item::Mod(m) => {
                if let Some((_, items)) = &m.content {
                    collect_items(items, &sub(&m.ident.to_string()), db);
                }
            }
            Item::Fn(f) => add_fn(module, "", "", &f.sig, &f.block, "", db),
            Item::Impl(i) => {
                let st = last_seg_ty(&i.self_ty);
                let tr = i.trait_.as_ref().map(|t| path_short(&t.1)).unwrap_or_default();
                let g = i.generics.to_token_stream().to_string();
                for m in &i.items {
                    if let ImplItem::Fn(f) = m {
                        add_fn(module, &st, &tr, &f.sig, &f.block, &g, db);
                    }
                }
            }
            Item::Trait(t) => {
                for m in &t.items {
                    if let TraitItem::Fn(f) = m {
                        if let Some(b) = &f.default {
                            add_fn(module, "", &format!("trait {}", t.ident), &f.sig, b, "", db);
                        }
                    }
                }
            }
            Item::Struct(s) => {
                for f in &s.fields {
                    if let (Some(n), true) = (&f.ident, opt_type(&f.ty)) {
                        db.opt_fields.insert((s.ident.to_string(), n.to_string()));
                    }
                    if let (Some(n), Type::Path(t)) = (&f.ident, &f.ty) {
                        if t.path.is_ident("bool") {
                            db.bool_fields.insert(n.to_string());
                        }
                    }
                }
                let mut s2 = s.clone();
                clean_fields(&mut s2.fields);
                s2.attrs.clear();
                s2.vis = parse_quote!(pub);
                for p in s2.generics.type_params_mut() { p.default = None; p.eq_token = None; }
                let mut v = RewriteTypes;
                v.visit_item_struct_mut(&mut s2);
                db.types.insert(sub(&s.ident.to_string()), json!({"text": pretty(s2.to_token_stream()), "kind": "struct"}));
            }
            Item::Enum(s) => {
                for v in &s.variants {
                    for f in &v.fields {
                        if let (Some(n), true) = (&f.ident, opt_type(&f.ty)) {
                            db.opt_fields.insert((v.ident.to_string(), n.to_string()));
                        }
                    }
                }
                let mut s2 = s.clone();
                s2.attrs.clear();
                s2.vis = parse_quote!(pub);
                for p in s2.generics.type_params_mut() { p.default = None; p.eq_token = None; }
                for v in s2.variants.iter_mut() {
                    v.attrs.clear();
                    clean_fields_enum(&mut v.fields);
                }
                let mut v = RewriteTypes;
                v.visit_item_enum_mut(&mut s2);
                db.types.insert(sub(&s.ident.to_string()), json!({"text": pretty(s2.to_token_stream()), "kind": "enum"}));
            }
            Item::Const(c) => {
                db.consts.insert(sub(&c.ident.to_string()), json!({"ty": c.ty.to_token_stream().to_string(), "expr": c.expr.to_token_stream().to_string(), "static": false}));
            }
            Item::Static(c) => {
                db.consts.insert(sub(&c.ident.to_string()), json!({"ty": c.ty.to_token_stream().to_string(), "expr": c.expr.to_token_stream().to_string(), "static": true}));
            }
            _ => {}
        }
    }
}

fn clean_fields(f: &mut Fields) {
    for x in f.iter_mut() {
        x.attrs.clear();
        x.vis = parse_quote!(pub);
    }
}
fn clean_fields_enum(f: &mut Fields) {
    for x in f.iter_mut() {
        x.attrs.clear();
        x.vis = Visibility::Inherited;
    }
}

fn add_fn(module: &str, st: &str, tr: &str, sig: &Signature, block: &Block, g: &str, db: &mut Db) {
    // nested items become their own module path
    let inner: Vec<Item> = block
        .stmts
        .iter()
        .filter_map(|s| if let Stmt::Item(i) = s { Some(i.clone()) } else { None })
        .collect();
    let name = sig.ident.to_string();
    if !inner.is_empty() {
        let m = if module.is_empty() { name.clone() } else { format!("{}::{}", module, name) };
        collect_items(&inner, &m, db);
    }
    let mut block = block.clone();
    StripItems.visit_block_mut(&mut block);
    let mut sig = sig.clone();
    let notes = reading::pass(&mut sig, &mut block);
    db.fns.push(FnDef {
        module: module.into(),
        self_ty: st.into(),
        trait_: tr.into(),
        name,
        sig,
        notes,
        block,
        impl_generics: g.into(),
    });
}

struct RenameSelf;
impl VisitMut for RenameSelf {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "self" { *i = format_ident!("xt_self"); }
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        fn go(t: TokenStream) -> TokenStream {
            t.into_iter().map(|t| match t {
                TokenTree::Ident(i) if i == "self" => TokenTree::Ident(format_ident!("xt_self")),
                TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream()))),
                t => t,
            }).collect()
        }
        m.tokens = go(std::mem::take(&mut m.tokens));
    }
}

struct StripItems;
impl VisitMut for StripItems {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Item(_)));
        visit_mut::visit_block_mut(self, b);
    }
}

/// Path rewriting shared by types and bodies.
fn rewrite_path(p: &mut Path) {
    let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let full = segs.join("::");
    let full = full.trim_start_matches("::").to_string();
    let map: &[(&str, &str)] = &[
        ("fmt::Result", "FResult"),
        ("crate::fmt::Result", "FResult"),
        ("core::fmt::Result", "FResult"),
        ("core::fmt::Error", "core::fmt::Error"),
        ("fmt::Error", "core::fmt::Error"),
        ("std::io::Error", "std::io::Error"),
        ("io::Error", "std::io::Error"),
        ("core::fmt::Write", "CoreFmtWrite"),
        ("io::Write", "IoWrite"),
        ("std::io::Write", "IoWrite"),
        ("mem::take", "core::mem::take"),
        ("core::mem::take", "core::mem::take"),
        ("mem::replace", "core::mem::replace"),
        ("core::mem::replace", "core::mem::replace"),
        ("mem::swap", "core::mem::swap"),
        ("core::mem::swap", "core::mem::swap"),
        ("cmp::min", "Ord::min"),
        ("core::cmp::min", "Ord::min"),
        ("cmp::max", "Ord::max"),
        ("core::cmp::max", "Ord::max"),
        ("u32::from", "IntoU32::into_u32"),
    ];
    for (a, b) in map {
        if full == *a {
            let args = p.segments.last().unwrap().arguments.clone();
            let mut np: Path = parse_str(b).unwrap();
            np.segments.last_mut().unwrap().arguments = args;
            *p = np;
            return;
        }
    }
    // Strip leading lowercase module segments before the first segment that
    // starts with an uppercase letter; if none, strip crate/super/self and
    // module segments except for known std modules.
    if p.segments.len() > 1 {
        if matches!(segs[0].as_str(), "i8"|"i16"|"i32"|"i64"|"u8"|"u16"|"u32"|"u64"|"usize"|"isize"|"str"|"char"|"u128"|"i128"|"bool"|"f32"|"f64") { return; }
        let idx = segs.iter().position(|s| s.chars().next().map(|c| c.is_uppercase()).unwrap_or(false));
        let cut = match idx {
            Some(i) => i,
            None => segs.len() - 1,
        };
        if cut > 0 {
            let n: Vec<PathSegment> = p.segments.iter().skip(cut).cloned().collect();
            p.leading_colon = None;
            p.segments = n.into_iter().collect();
        } else if p.leading_colon.is_some() {
            p.leading_colon = None;
        }
    }
}

/// `a == b` and `a != b` as calls of the comparison they stand for.
struct Compared;
impl VisitMut for Compared {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Binary(b) = e {
            let (l, r) = (&b.left, &b.right);
            match b.op {
                BinOp::Eq(..) => *e = parse_quote!(Cm::cm_eq(&(#l), &(#r))),
                BinOp::Ne(..) => *e = parse_quote!(!Cm::cm_eq(&(#l), &(#r))),
                _ => {}
            }
        }
    }
}

struct RewriteTypes;
impl VisitMut for RewriteTypes {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        rewrite_path(p);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

/// Body rewriter.
struct Body {
    loops: Vec<String>,
    notes: BTreeSet<String>,
    tmp: usize,
}

fn norm(ts: TokenStream) -> String {
    let mut s = ts.to_string();
    s.retain(|c| !c.is_whitespace());
    s
}

fn mark(name: &str, k: usize) -> Stmt {
    let n = format_ident!("{}", name);
    let k = Literal::usize_unsuffixed(k);
    parse_quote!(xt_mark!(#n #k);)
}

/// Replace `break v` belonging to this loop by `{ x = v; break }`.
struct BreakVal {
    target: Ident,
    depth: usize,
}
impl VisitMut for BreakVal {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
            }
            Expr::Closure(_) => {}
            Expr::Break(b) if self.depth == 0 && b.label.is_none() => {
                if let Some(v) = b.expr.take() {
                    let t = &self.target;
                    *e = parse_quote!({ #t = #v; break; });
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

fn parse_fmt(lit: &str, args: &[Expr]) -> Option<Expr> {
    // returns an expression building FmtArgs
    let mut parts: Vec<Expr> = Vec::new();
    let mut cur = String::new();
    let mut it = lit.chars().peekable();
    let mut next_pos = 0usize;
    let flush = |cur: &mut String, parts: &mut Vec<Expr>| {
        if !cur.is_empty() {
            let l = LitStr::new(cur, Span::call_site());
            parts.push(parse_quote!(fmt_lit(#l)));
            cur.clear();
        }
    };
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => {
                it.next();
                cur.push('{');
            }
            '}' if it.peek() == Some(&'}') => {
                it.next();
                cur.push('}');
            }
            '{' => {
                let mut inner = String::new();
                loop {
                    match it.next()? {
                        '}' => break,
                        c => inner.push(c),
                    }
                }
                flush(&mut cur, &mut parts);
                let (name, spec) = match inner.find(':') {
                    Some(i) => (inner[..i].to_string(), inner[i + 1..].to_string()),
                    None => (inner.clone(), String::new()),
                };
                let arg: Expr = if name.is_empty() {
                    let a = args.get(next_pos)?.clone();
                    next_pos += 1;
                    a
                } else if let Ok(n) = name.parse::<usize>() {
                    args.get(n)?.clone()
                } else {
                    parse_str(&name).ok()?
                };
                match spec.as_str() {
                    "" => parts.push(parse_quote!(fmt_display(&(#arg)))),
                    s if s.ends_with('o') => {
                        let w = s.trim_end_matches('o');
                        let w = if w.is_empty() { 0usize } else { w.strip_prefix('0')?.parse().ok()? };
                        let w = Literal::usize_unsuffixed(w);
                        parts.push(parse_quote!(fmt_oct(#w, #arg)));
                    }
                    s if s.ends_with('x') => {
                        let w = s.trim_end_matches('x');
                        let w = if w.is_empty() { 0usize } else { w.strip_prefix('0')?.parse().ok()? };
                        let w = Literal::usize_unsuffixed(w);
                        parts.push(parse_quote!(fmt_hex(#w, #arg)));
                    }
                    _ => return None,
                }
            }
            c => cur.push(c),
        }
    }
    flush(&mut cur, &mut parts);
    let mut it = parts.into_iter();
    let mut acc: Expr = it.next().unwrap_or_else(|| parse_quote!(fmt_lit("")));
    for p in it {
        acc = parse_quote!(fmt_cat(#acc, #p));
    }
    Some(acc)
}

impl Body {
    fn fmt_args(&mut self, m: &Macro) -> Option<Expr> {
        if m.path.segments.last()?.ident != "format_args" {
            return None;
        }
        let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        let v = syn::parse::Parser::parse2(p, m.tokens.clone()).ok()?;
        let mut v: Vec<Expr> = v.into_iter().collect();
        if v.is_empty() {
            return None;
        }
        let first = v.remove(0);
        if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = first {
            return parse_fmt(&s.value(), &v);
        }
        None
    }
}

/// source, pattern and body of it.map(|p| e).collect() that makes a vector
fn map_collect(m: &ExprMethodCall) -> Option<(Expr, Pat, Expr)> {
    if !m.args.is_empty() || !m.turbofish.as_ref().is_some_and(|t| t.to_token_stream().to_string().contains("Vec")) {
        return None;
    }
    let Expr::MethodCall(mp) = &*m.receiver else { return None };
    if mp.method != "map" || mp.args.len() != 1 {
        return None;
    }
    let Expr::Closure(c) = &mp.args[0] else { return None };
    if c.inputs.len() != 1 {
        return None;
    }
    use syn::visit::Visit;
    let mut ck = InlineCheck { ret: false, question: false, depth: 0 };
    ck.visit_expr(&c.body);
    if ck.ret || ck.question {
        return None;
    }
    let src = match &*mp.receiver {
        Expr::MethodCall(i) if i.method == "into_iter" && i.args.is_empty() => (*i.receiver).clone(),
        x => x.clone(),
    };
    Some((src, c.inputs[0].clone(), (*c.body).clone()))
}

impl VisitMut for Body {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        rewrite_path(p);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // let P = loop { .. break v .. };
        let mut out = Vec::new();
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &s {
                if let Some(init) = &l.init {
                    if let Expr::Loop(lp) = &*init.expr {
                        if init.diverge.is_none() {
                            let mut lp = lp.clone();
                            self.tmp += 1;
                            let target = format_ident!("xt_brk{}", self.tmp);
                            let mut bv = BreakVal { target: target.clone(), depth: 0 };
                            visit_mut::visit_block_mut(&mut bv, &mut lp.body);
                            out.push(parse_quote!(let #target;));
                            out.push(Stmt::Expr(Expr::Loop(lp), None));
                            let p = &l.pat;
                            out.push(parse_quote!(let #p = #target;));
                            self.notes.insert("break-with-value loop turned into deferred initialisation".into());
                            continue;
                        }
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // drop expression attributes
        match e {
            Expr::ForLoop(f) => {
                let k = self.loops.len();
                self.loops.push(format!("for {} in {}", norm(f.pat.to_token_stream()), norm(f.expr.to_token_stream())));
                if has_continue(&f.body.stmts) {
                    let flag = format_ident!("xt_skip{}", k);
                    let mut g = Guard { flag: flag.clone(), bad: false };
                    let body = g.stmts(f.body.stmts.clone());
                    if !g.bad {
                        f.body.stmts = body;
                        if uses(&f.body, &flag) {
                            f.body.stmts.insert(0, parse_quote!(let mut #flag = false;));
                        }
                        self.notes.insert("continue in a for loop written as an else branch, or a flag, around the rest of the body".into());
                    }
                }
                if let Pat::Reference(r) = &*f.pat {
                    let id = format_ident!("xt_r{}", k);
                    let inner = (*r.pat).clone();
                    f.body.stmts.insert(0, parse_quote!(let #inner = *#id;));
                    f.pat = Box::new(parse_quote!(#id));
                    self.notes.insert("for &pattern in .. written as for x in .. { let pattern = *x; .. }".into());
                }
                visit_mut::visit_expr_for_loop_mut(self, f);
                let ex = &f.expr;
                let kk = Literal::usize_unsuffixed(k);
                f.expr = parse_quote!(xt_it!(#kk; #ex));
                f.body.stmts.insert(0, mark("lstart", k));
                f.body.stmts.push(mark("lend", k));
                fix_tail_unit(&mut f.body);
            }
            Expr::While(w) => {
                let k = self.loops.len();
                self.loops.push(format!("while {}", norm(w.cond.to_token_stream())));
                visit_mut::visit_expr_while_mut(self, w);
                w.body.stmts.insert(0, mark("lstart", k));
                w.body.stmts.push(mark("lend", k));
                fix_tail_unit(&mut w.body);
            }
            Expr::Loop(l) => {
                let k = self.loops.len();
                self.loops.push("loop".into());
                visit_mut::visit_expr_loop_mut(self, l);
                l.body.stmts.insert(0, mark("lstart", k));
                l.body.stmts.push(mark("lend", k));
                fix_tail_unit(&mut l.body);
            }
            Expr::MethodCall(m) if m.method == "write_fmt" && m.args.len() == 1 => {
                visit_mut::visit_expr_mut(self, &mut m.receiver);
                if let Expr::Macro(mac) = &m.args[0] {
                    let mac = mac.mac.clone();
                    if let Some(mut a) = self.fmt_args(&mac) {
                        self.visit_expr_mut(&mut a);
                        m.args = std::iter::once(a).collect();
                        self.notes.insert("format_args! pieces turned into fmt_lit/fmt_hex/fmt_display calls".into());
                    }
                }
            }
            // format!(..)
            Expr::Call(c) if fmt_call(c).is_some() => {
                let mac = fmt_call(c).unwrap();
                match self.fmt_args(&mac) {
                    Some(mut a) => {
                        self.visit_expr_mut(&mut a);
                        *e = parse_quote!(xt_format(#a));
                        self.notes.insert("format!(..) written as xt_format of fmt_lit/fmt_display pieces".into());
                    }
                    None => visit_mut::visit_expr_mut(self, e),
                }
            }
            // provided methods of std traits and slices of temporary buffers have no
            // contract in the verifier: name them as functions
            Expr::MethodCall(m) if m.method == "peekable" && m.args.is_empty() => {
                visit_mut::visit_expr_mut(self, &mut m.receiver);
                let r = &m.receiver;
                *e = parse_quote!(xt_peekable(#r));
                self.notes.insert("x.peekable() written as xt_peekable(x)".into());
            }
            // it.map(|p| e).collect(): the loop it stands for
            Expr::MethodCall(m) if m.method == "collect" && map_collect(m).is_some() => {
                let (src, pat, body) = map_collect(m).unwrap();
                *e = parse_quote!({ let mut xt_col = Vec::new(); for xt_m in #src { let #pat = xt_m; let xt_e = #body; xt_col.push(xt_e); } xt_col });
                self.notes.insert("it.map(|x| e).collect() written as a loop that pushes to a vector".into());
                self.visit_expr_mut(e);
            }
            Expr::MethodCall(m) if m.method == "as_deref" && m.args.is_empty() => {
                visit_mut::visit_expr_mut(self, &mut m.receiver);
                let r = &m.receiver;
                self.notes.insert("x.as_deref() written as a match on x.as_ref()".into());
                *e = parse_quote!(match #r.as_ref() { Some(xt_o) => Some(&**xt_o), None => None });
            }
            // closures given to methods of Option have no contract of their own: write the match
            Expr::Binary(ExprBinary { left, op: BinOp::BitOrAssign(_), right, .. })
                if matches!(&**left, Expr::Field(f) if matches!(&f.member, Member::Named(n) if BOOLS.with(|b| b.borrow().contains(&n.to_string())))) =>
            {
                self.notes.insert("`a |= b` of booleans written as { let x = b; a = a || x; }".into());
                let (l, r) = (left.clone(), right.clone());
                *e = parse_quote!({ let xt_b: bool = #r; #l = #l || xt_b; });
            }
            Expr::MethodCall(m) if is_opt(&m.receiver) && opt_match(m).is_some() => {
                self.notes.insert(format!("Option::{} with a closure written as a match", m.method));
                *e = opt_match(m).unwrap();
                self.visit_expr_mut(e);
            }
            Expr::MethodCall(m) if XSTR.iter().any(|x| m.method == x) && m.args.len() == 1 => {
                let n = m.method.to_string();
                m.method = format_ident!("x_{}", n);
                visit_mut::visit_expr_method_call_mut(self, m);
                self.notes.insert(format!("method {} of str written as x_{}", n, n));
            }
            Expr::MethodCall(m) if m.method == "encode_utf8" && m.args.len() == 1 => {
                visit_mut::visit_expr_mut(self, &mut m.receiver);
                let r = &m.receiver;
                *e = parse_quote!(xt_char_str(#r));
                self.notes.insert("c.encode_utf8(buffer) written as xt_char_str(c)".into());
            }
            Expr::MethodCall(m) if m.method == "encode_utf16" && m.args.len() == 1 => {
                visit_mut::visit_expr_mut(self, &mut m.receiver);
                let r = &m.receiver;
                *e = parse_quote!(xt_char_units(#r));
                self.notes.insert("c.encode_utf16(buffer) written as xt_char_units(c), a vector of the same units".into());
            }
            Expr::Match(m) if m.arms.iter().any(|a| a.guard.is_some()) => {
                for a in m.arms.iter_mut() {
                    let b = &a.body;
                    a.body = match &**b {
                        Expr::Block(blk) if blk.label.is_none() => {
                            let mut blk = blk.clone();
                            blk.block.stmts.insert(0, parse_quote!(xt_mark!(arm);));
                            Box::new(Expr::Block(blk))
                        }
                        b => parse_quote!({ xt_mark!(arm); #b }),
                    };
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Paren(p) => {
                visit_mut::visit_expr_mut(self, &mut p.expr);
            }
            Expr::Closure(c) => {
                for (i, a) in c.inputs.iter_mut().enumerate() {
                    if matches!(a, Pat::Wild(_)) {
                        let id = format_ident!("xt_p{}", i);
                        *a = parse_quote!(#id);
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Path(p) if matches!(norm(p.path.to_token_stream()).as_str(), "core::fmt::Error" | "fmt::Error" | "crate::fmt::Error") => {
                *e = parse_quote!(fmt_error());
                self.notes.insert("value core::fmt::Error written as a call of fmt_error()".into());
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// the arguments of an expanded format!(..)
fn fmt_call(c: &ExprCall) -> Option<Macro> {
    let last = |e: &Expr| match e {
        Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    };
    match (last(&c.func)?.as_str(), c.args.len()) {
        ("must_use", 1) => match &c.args[0] {
            Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                Stmt::Expr(Expr::Call(c), None) => fmt_call(c),
                _ => None,
            },
            _ => None,
        },
        ("format", 1) => match &c.args[0] {
            Expr::Macro(m) if m.mac.path.segments.last()?.ident == "format_args" => Some(m.mac.clone()),
            _ => None,
        },
        _ => None,
    }
}

/// an expression that is an Option, going by the method that makes it
fn is_opt(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            match n.as_str() {
                "as_deref" | "get" | "next" | "first" | "last" | "peek" | "pop" | "strip_prefix" | "strip_suffix" | "checked_add" | "checked_sub" | "get_mut" | "as_mut" => true,
                "as_ref" | "map" | "and_then" | "filter" | "copied" | "cloned" => is_opt(&m.receiver) || n == "as_ref",
                _ => false,
            }
        }
        Expr::Paren(p) => is_opt(&p.expr),
        Expr::Path(p) => p.path.get_ident().is_some_and(|i| OPTS.with(|o| o.borrow().contains(&i.to_string()))),
        _ => false,
    }
}

fn opt_match(m: &ExprMethodCall) -> Option<Expr> {
    let r = &m.receiver;
    let call = |f: &Expr| -> Option<(Pat, Expr)> {
        match f {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                Some((p, (*c.body).clone()))
            }
            Expr::Path(p) => Some((parse_quote!(xt_o), parse_quote!(#p(xt_o)))),
            _ => None,
        }
    };
    let n = m.method.to_string();
    match (n.as_str(), m.args.len()) {
        ("map", 1) => {
            let (p, b) = call(&m.args[0])?;
            Some(parse_quote!(match #r { Some(#p) => Some(#b), None => None }))
        }
        ("and_then", 1) => {
            let (p, b) = call(&m.args[0])?;
            Some(parse_quote!(match #r { Some(#p) => #b, None => None }))
        }
        ("is_some_and", 1) => {
            let (p, b) = call(&m.args[0])?;
            Some(parse_quote!(match #r { Some(#p) => #b, None => false }))
        }
        ("is_none_or", 1) => {
            let (p, b) = call(&m.args[0])?;
            Some(parse_quote!(match #r { Some(#p) => #b, None => true }))
        }
        ("map_or", 2) => {
            let d = &m.args[0];
            let (p, b) = call(&m.args[1])?;
            Some(parse_quote!(match #r { Some(#p) => #b, None => #d }))
        }
        ("unwrap_or_else", 1) => match &m.args[0] {
            Expr::Closure(c) if c.inputs.is_empty() => {
                let b = &c.body;
                Some(parse_quote!(match #r { Some(xt_o) => xt_o, None => #b }))
            }
            _ => None,
        },
        _ => None,
    }
}

/// a `continue` that belongs to the loop with this body
fn has_continue(stmts: &[Stmt]) -> bool {
    struct H(bool);
    impl<'a> syn::visit::Visit<'a> for H {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Continue(c) if c.label.is_none() => self.0 = true,
                Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_) => {}
                _ => syn::visit::visit_expr(self, e),
            }
        }
        fn visit_item(&mut self, _: &'a Item) {}
    }
    let mut h = H(false);
    for s in stmts {
        syn::visit::Visit::visit_stmt(&mut h, s);
    }
    h.0
}

fn uses(b: &Block, id: &Ident) -> bool {
    fn go(ts: TokenStream, id: &str) -> bool {
        ts.into_iter().any(|t| match t {
            TokenTree::Group(g) => go(g.stream(), id),
            TokenTree::Ident(i) => i == id,
            _ => false,
        })
    }
    go(b.to_token_stream(), &id.to_string())
}

/// turns `continue` into a flag: what follows in the body is only run while the flag is not set
struct Guard {
    flag: Ident,
    bad: bool,
}

impl Guard {
    fn stmts(&mut self, stmts: Vec<Stmt>) -> Vec<Stmt> {
        let mut out = Vec::new();
        let mut it = stmts.into_iter();
        while let Some(s) = it.next() {
            if !has_continue(std::slice::from_ref(&s)) {
                out.push(s);
                continue;
            }
            let flag = self.flag.clone();
            match s {
                // a branch that ends in continue: the other one goes on with the rest
                Stmt::Expr(Expr::If(mut i), _) if i.else_branch.is_none() && ends_in_continue(&i.then_branch.stmts) => {
                    i.then_branch.stmts.pop();
                    self.block(&mut i.then_branch);
                    i.then_branch.stmts.push(parse_quote!(#flag = true;));
                    let rest = self.stmts(it.by_ref().collect());
                    i.else_branch = Some((Default::default(), parse_quote!({ #(#rest)* })));
                    out.push(Stmt::Expr(Expr::If(i), None));
                }
                Stmt::Expr(Expr::Match(mut m), _) if m.arms.iter().filter(|a| !arm_continues(a)).count() == 1 => {
                    let rest = self.stmts(it.by_ref().collect());
                    for a in m.arms.iter_mut() {
                        if arm_continues(a) {
                            if let Expr::Block(b) = &mut *a.body {
                                b.block.stmts.pop();
                                self.block(&mut b.block);
                                b.block.stmts.push(parse_quote!(#flag = true;));
                            } else {
                                a.body = parse_quote!({ #flag = true; });
                            }
                        } else {
                            let e = (*a.body).clone();
                            if has_continue(&[Stmt::Expr(e.clone(), None)]) {
                                self.bad = true;
                            }
                            a.body = parse_quote!({ #e; #(#rest)* });
                        }
                    }
                    out.push(Stmt::Expr(Expr::Match(m), None));
                }
                Stmt::Expr(mut e, _) => {
                    self.expr(&mut e);
                    let block = matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_));
                    out.push(Stmt::Expr(e, if block { None } else { Some(Default::default()) }));
                    let rest: Vec<Stmt> = self.stmts(it.by_ref().collect());
                    if !rest.is_empty() {
                        out.push(parse_quote!(if !#flag { #(#rest)* }));
                    }
                }
                Stmt::Local(l) => {
                    let rest: Vec<Stmt> = self.stmts(it.by_ref().collect());
                    let pat = &l.pat;
                    match l.init {
                        Some(LocalInit { expr, diverge: Some((_, mut els)), .. }) if !has_continue(&[Stmt::Expr((*expr).clone(), None)]) => {
                            self.expr(&mut els);
                            out.push(parse_quote!(match #expr { #pat => { #(#rest)* } _ => #els }));
                        }
                        Some(LocalInit { expr, diverge: None, .. }) => match *expr {
                            Expr::Match(mut m) if m.arms.iter().filter(|a| !has_continue(&[Stmt::Expr((*a.body).clone(), None)])).count() == 1 => {
                                for a in m.arms.iter_mut() {
                                    let b = (*a.body).clone();
                                    if has_continue(&[Stmt::Expr(b.clone(), None)]) {
                                        self.expr(&mut a.body);
                                    } else {
                                        a.body = parse_quote!({ let #pat = #b; #(#rest)* });
                                    }
                                }
                                out.push(Stmt::Expr(Expr::Match(m), None));
                            }
                            _ => self.bad = true,
                        },
                        _ => self.bad = true,
                    }
                }
                _ => self.bad = true,
            }
        }
        out
    }

    fn block(&mut self, b: &mut Block) {
        b.stmts = self.stmts(std::mem::take(&mut b.stmts));
        fix_last(b);
    }

    fn expr(&mut self, e: &mut Expr) {
        if !has_continue(&[Stmt::Expr(e.clone(), None)]) {
            return;
        }
        let flag = self.flag.clone();
        match e {
            Expr::Continue(c) if c.label.is_none() => *e = parse_quote!({ #flag = true; }),
            Expr::If(i) => {
                if has_continue(&[Stmt::Expr((*i.cond).clone(), None)]) {
                    self.bad = true;
                }
                self.block(&mut i.then_branch);
                if let Some((_, els)) = &mut i.else_branch {
                    self.expr(els);
                }
            }
            Expr::Match(m) => {
                if has_continue(&[Stmt::Expr((*m.expr).clone(), None)]) {
                    self.bad = true;
                }
                for a in m.arms.iter_mut() {
                    self.expr(&mut a.body);
                }
            }
            Expr::Block(b) if b.label.is_none() => self.block(&mut b.block),
            _ => self.bad = true,
        }
    }
}

fn ends_in_continue(stmts: &[Stmt]) -> bool {
    matches!(stmts.last(), Some(Stmt::Expr(Expr::Continue(c), _)) if c.label.is_none())
}

fn arm_continues(a: &Arm) -> bool {
    match &*a.body {
        Expr::Continue(c) => c.label.is_none(),
        Expr::Block(b) => b.label.is_none() && ends_in_continue(&b.block.stmts),
        _ => false,
    }
}

/// a block that ended in `continue` has no value
fn fix_last(b: &mut Block) {
    if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() {
        if semi.is_none() && needs_semi(e) {
            *semi = Some(Default::default());
        }
    }
}

/// after pushing a marker statement, a previous tail expression without `;`
/// must get one.
fn fix_tail_unit(b: &mut Block) {
    let n = b.stmts.len();
    if n >= 2 {
        if let Stmt::Expr(e, semi) = &mut b.stmts[n - 2] {
            if semi.is_none() && needs_semi(e) {
                *semi = Some(Default::default());
            }
        }
    }
}
fn needs_semi(e: &Expr) -> bool {
    !matches!(
        e,
        Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_)
    )
}

fn str_lits(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => str_lits(g.stream(), out),
            TokenTree::Literal(l) => {
                let s = l.to_string();
                if s.starts_with('"') {
                    out.insert(s);
                }
            }
            _ => {}
        }
    }
}

fn pretty(ts: TokenStream) -> String {
    let mut s = String::new();
    pp(ts, &mut s, 0);
    s
}

fn pp(ts: TokenStream, s: &mut String, ind: usize) {
    let mut prev_joint = true;
    let nl = |s: &mut String, ind: usize| {
        s.push('\n');
        for _ in 0..ind {
            s.push_str("  ");
        }
    };
    for t in ts {
        let space = |s: &mut String, prev_joint: bool| {
            if !prev_joint && !s.ends_with([' ', '\n']) {
                s.push(' ');
            }
        };
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if g.delimiter() == Delimiter::Brace {
                    space(s, prev_joint);
                    s.push_str(o);
                    if !g.stream().is_empty() {
                        nl(s, ind + 1);
                        pp(g.stream(), s, ind + 1);
                        nl(s, ind);
                    }
                    s.push_str(c);
                    nl(s, ind);
                    prev_joint = true;
                } else {
                    s.push_str(o);
                    pp(g.stream(), s, ind);
                    s.push_str(c);
                    prev_joint = false;
                }
            }
            TokenTree::Ident(i) => {
                space(s, prev_joint);
                s.push_str(&i.to_string());
                prev_joint = false;
            }
            TokenTree::Literal(l) => {
                space(s, prev_joint);
                s.push_str(&l.to_string());
                prev_joint = false;
            }
            TokenTree::Punct(p) => {
                if p.as_char() == '\'' {
                    space(s, prev_joint);
                    s.push('\'');
                    prev_joint = true;
                    continue;
                }
                match p.as_char() {
                    ';' => {
                        s.push(';');
                        nl(s, ind);
                        prev_joint = true;
                    }
                    c => {
                        if !(c == ',' || c == '.' || c == ':' || c == '?') {
                            space(s, prev_joint);
                        }
                        s.push(c);
                        prev_joint = p.spacing() == Spacing::Joint;
                    }
                }
            }
        }
    }
}

fn pat_names(sig: &Signature) -> Vec<(Pat, Type)> {
    sig.inputs
        .iter()
        .filter_map(|a| if let FnArg::Typed(t) = a { Some(((*t.pat).clone(), (*t.ty).clone())) } else { None })
        .collect()
}

/// Detects things that forbid naive inlining.
struct InlineCheck {
    ret: bool,
    question: bool,
    depth: usize,
}
impl<'a> syn::visit::Visit<'a> for InlineCheck {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_try(&mut self, e: &'a ExprTry) {
        self.question = true;
        syn::visit::visit_expr_try(self, e);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

struct Inliner<'a> {
    db: &'a Db,
    module: String,
    fn_path: String,
    self_ty: String,
    contracted: &'a BTreeSet<String>,
    stack: Vec<String>,
    uncontracted: BTreeSet<String>,
    inlined: BTreeSet<String>,
    n: usize,
}

impl<'a> Inliner<'a> {
    fn find(&self, name: &str, method: bool) -> Option<&'a FnDef> {
        self.db.fns.iter().find(|f| {
            if f.name != name || !f.trait_.is_empty() {
                return false;
            }
            if method {
                f.self_ty == self.self_ty && !self.self_ty.is_empty()
            } else {
                f.self_ty.is_empty() && (f.module == self.module || f.module == self.fn_path)
            }
        })
    }
    fn inline(&mut self, f: &FnDef, recv_self: bool, args: Vec<Expr>, in_try: bool) -> Option<Expr> {
        use syn::visit::Visit;
        let mut c = InlineCheck { ret: false, question: false, depth: 0 };
        c.visit_block(&f.block);
        let _ = c.depth;
        if c.ret || (c.question && !in_try) {
            return None;
        }
        if recv_self != matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_))) {
            return None;
        }
        let ps = pat_names(&f.sig);
        if ps.len() != args.len() {
            return None;
        }
        self.n += 1;
        let mut stmts: Vec<Stmt> = Vec::new();
        // bind arguments to fresh names first, then to the parameter patterns
        let mut fresh = Vec::new();
        for (a, (_, t)) in args.iter().zip(ps.iter()) {
            let id = format_ident!("xt_arg{}_{}", self.n, fresh.len());
            // a mutable reference is reborrowed, as it is by a call
            if matches!(t, Type::Reference(r) if r.mutability.is_some()) && matches!(a, Expr::Path(_)) {
                stmts.push(parse_quote!(let #id = &mut *#a;));
            } else {
                stmts.push(parse_quote!(let #id = #a;));
            }
            fresh.push(id);
        }
        for ((p, t), id) in ps.iter().zip(fresh.iter()) {
            let has_infer = t.to_token_stream().to_string().contains("impl ") || f.sig.generics.params.iter().any(|g| matches!(g, GenericParam::Type(_)));
            if has_infer || matches!(t, Type::Reference(_)) {
                stmts.push(parse_quote!(let #p = #id;));
            } else {
                stmts.push(parse_quote!(let #p: #t = #id;));
            }
        }
        let mut b = f.block.clone();
        stmts.append(&mut b.stmts);
        self.inlined.insert(f.key());
        let nb = Block { brace_token: Default::default(), stmts };
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: nb }))
    }
    fn handle(&mut self, e: &mut Expr, in_try: bool) -> bool {
        let (target, recv_self, args): (Option<&'a FnDef>, bool, Vec<Expr>) = match &*e {
            Expr::MethodCall(m) if matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) => {
                (self.find(&m.method.to_string(), true), true, m.args.iter().cloned().collect())
            }
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.path.segments.len() == 1 => {
                    (self.find(&p.path.segments[0].ident.to_string(), false), false, c.args.iter().cloned().collect())
                }
                Expr::Path(p) if p.path.segments.len() == 2 => {
                    let s0 = p.path.segments[0].ident.to_string();
                    let s1 = p.path.segments[1].ident.to_string();
                    let base = self.self_ty.split('<').next().unwrap_or("").to_string();
                    if s0 == "Self" || (!base.is_empty() && s0 == base) {
                        (self.find(&s1, true), false, c.args.iter().cloned().collect())
                    } else {
                        (None, false, vec![])
                    }
                }
                _ => (None, false, vec![]),
            },
            _ => (None, false, vec![]),
        };
        let Some(f) = target else { return false };
        let key = f.key();
        if self.contracted.contains(&key) {
            return false;
        }
        if self.stack.contains(&key) {
            self.uncontracted.insert(key);
            return false;
        }
        match self.inline(f, recv_self, args, in_try) {
            Some(mut ne) => {
                self.stack.push(key);
                self.visit_expr_mut(&mut ne);
                self.stack.pop();
                *e = ne;
                true
            }
            None => {
                self.uncontracted.insert(key);
                false
            }
        }
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            if self.handle(&mut t.expr, true) {
                return;
            }
        } else if self.handle(e, false) {
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
    }
}

/// The tail of the function is also a place where `?` inside an inlined
/// helper is transparent.
fn inline_tail(inl: &mut Inliner, b: &mut Block) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        match e {
            Expr::MethodCall(_) | Expr::Call(_) => {
                inl.handle(e, true);
            }
            _ => {}
        }
    }
}

fn process(f: &FnDef, db: &Db, contracted: &BTreeSet<String>, compared: bool) -> Value {
    let mut block = f.block.clone();
    let mut inl = Inliner {
        db,
        module: f.module.clone(),
        fn_path: if f.module.is_empty() { f.name.clone() } else { format!("{}::{}", f.module, f.name) },
        self_ty: f.self_ty.clone(),
        contracted,
        stack: vec![f.key()],
        uncontracted: Default::default(),
        inlined: Default::default(),
        n: 0,
    };
    inline_tail(&mut inl, &mut block);
    inl.visit_block_mut(&mut block);
    // `return x;` as the last statement is a tail expression
    if let Some(Stmt::Expr(Expr::Return(r), _)) = block.stmts.last() {
        let r = r.expr.clone();
        block.stmts.pop();
        if let Some(r) = r {
            block.stmts.push(Stmt::Expr(*r, None));
        }
    }
    {
        use syn::visit::Visit;
        let mut v = FindOpts { db, found: Default::default() };
        for a in &f.sig.inputs {
            if let FnArg::Typed(t) = a {
                v.visit_pat_type(t);
            }
        }
        v.visit_block(&block);
        OPTS.with(|o| *o.borrow_mut() = v.found);
        BOOLS.with(|o| *o.borrow_mut() = db.bool_fields.clone());
    }
    let mut body = Body { loops: vec![], notes: f.notes.clone(), tmp: 0 };
    let mut fsig = f.sig.clone();
    // fn f(mut self) => fn f(self) { let mut xt_self = self; .. }
    if let Some(FnArg::Receiver(r)) = fsig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() && r.colon_token.is_none() {
            r.mutability = None;
            RenameSelf.visit_block_mut(&mut block);
            block.stmts.insert(0, parse_quote!(let mut xt_self = self;));
            body.notes.insert("`mut self` parameter turned into a local copy".into());
        }
    }
    for (i, a) in fsig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = a {
            if matches!(&*t.pat, Pat::Wild(_)) {
                let id = format_ident!("xt_p{}", i);
                t.pat = parse_quote!(#id);
            }
        }
    }
    body.visit_block_mut(&mut block);
    if compared {
        Compared.visit_block_mut(&mut block);
        body.notes.insert("== and != as calls of the function the operator stands for".into());
    }
    let unit = matches!(f.sig.output, ReturnType::Default);
    // tail
    let mut tail = None;
    if let Some(Stmt::Expr(e, None)) = block.stmts.last() {
        if !unit {
            tail = Some(e.clone());
            block.stmts.pop();
        } else {
            let e = e.clone();
            if needs_semi(&e) {
                block.stmts.pop();
                block.stmts.push(Stmt::Expr(e, Some(Default::default())));
            }
        }
    }
    let stmts = &block.stmts;
    let mut lits = BTreeSet::new();
    str_lits(quote!(#(#stmts)* #tail), &mut lits);
    let body_text = pretty(quote!(#(#stmts)*));
    let tail_text = tail.map(|t| pretty(t.to_token_stream()));
    let mut sig = fsig;
    let mut rt = RewriteTypes;
    rt.visit_signature_mut(&mut sig);
    let ret = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => t.to_token_stream().to_string(),
    };
    let ins = &sig.inputs;
    let generics = &sig.generics;
    let wc = &sig.generics.where_clause;
    json!({
        "key": f.key(),
        "name": f.name,
        "impl_generics": f.impl_generics,
        "generics": generics.to_token_stream().to_string(),
        "where": wc.to_token_stream().to_string(),
        "inputs": ins.to_token_stream().to_string(),
        "ret": ret,
        "unit": unit,
        "body": body_text,
        "tail": tail_text,
        "loops": body.loops,
        "lits": lits,
        "notes": body.notes.into_iter().collect::<Vec<_>>(),
        "inlined": inl.inlined.into_iter().collect::<Vec<_>>(),
        "uncontracted": inl.uncontracted.into_iter().collect::<Vec<_>>(),
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: xt SOURCE keys|dump [REQUEST.json]");
        std::process::exit(2);
    }
    let src = std::fs::read_to_string(&args[1]).expect("source");
    let file = match syn::parse_file(&src) {
        Ok(f) => f,
        Err(e) => {
            println!("{}", json!({"error": format!("parse: {e}")}));
            std::process::exit(3);
        }
    };
    let mut db = Db::default();
    collect_items(&file.items, "", &mut db);
    match args[2].as_str() {
        "keys" => {
            for f in &db.fns {
                println!("{}", f.key());
            }
            for t in db.types.keys() {
                println!("type {}", t);
            }
            for t in db.consts.keys() {
                println!("const {}", t);
            }
        }
        _ => {
            let req: Value = serde_json::from_str(&std::fs::read_to_string(&args[3]).expect("req")).expect("json");
            let strs = |v: &Value| -> Vec<String> {
                v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
            };
            let want = strs(&req["fns"]);
            let compared: BTreeSet<String> = strs(&req["compared"]).into_iter().collect();
            let contracted: BTreeSet<String> = want.iter().cloned().collect();
            let mut fns = serde_json::Map::new();
            for k in &want {
                let hits: Vec<&FnDef> = db.fns.iter().filter(|f| &f.key() == k).collect();
                if hits.len() == 1 {
                    fns.insert(k.clone(), process(hits[0], &db, &contracted, compared.contains(k)));
                } else {
                    // the item may have moved to another module: accept a unique match ignoring the module
                    let tail = k.splitn(2, '|').nth(1).unwrap_or("").to_string();
                    let alt: Vec<&FnDef> = db.fns.iter().filter(|f| f.key().splitn(2, '|').nth(1) == Some(tail.as_str())).collect();
                    if hits.is_empty() && alt.len() == 1 && !tail.starts_with("||") {
                        fns.insert(k.clone(), process(alt[0], &db, &contracted, compared.contains(k)));
                    } else {
                        fns.insert(k.clone(), json!({"error": format!("{} definitions found", hits.len())}));
                    }
                }
            }
            println!("{}", json!({"fns": fns, "types": db.types, "consts": db.consts}));
        }
    }
    let _ = (Group::new(Delimiter::None, TokenStream::new()), Punct::new('.', Spacing::Alone));
}
