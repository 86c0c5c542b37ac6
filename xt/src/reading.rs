//! Rewrites for code that reads tokens with syn. A syn parse buffer is a place
//! that is advanced through a shared reference (a Cell): it is written as a
//! plain place that is advanced through a mutable reference.
use quote::{format_ident, ToTokens};
use std::collections::BTreeSet;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn last(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

fn is_ty(t: &Type, n: &str) -> bool {
    matches!(t, Type::Path(p) if last(&p.path) == n)
}

fn ident_of(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Paren(p) => ident_of(&p.expr),
        _ => None,
    }
}

/// ParseStream => &mut ParseBuffer, &ParseBuffer<'a> => &mut ParseBuffer, ParseBuffer<'a> => ParseBuffer
struct Types {
    hit: bool,
}
impl VisitMut for Types {
    fn visit_type_mut(&mut self, t: &mut Type) {
        match t {
            Type::Reference(r) if is_ty(&r.elem, "ParseBuffer") => {
                *t = parse_quote!(&mut ParseBuffer);
                self.hit = true;
            }
            Type::Path(_) if is_ty(t, "ParseStream") => {
                *t = parse_quote!(&mut ParseBuffer);
                self.hit = true;
            }
            Type::Path(_) if is_ty(t, "ParseBuffer") => {
                *t = parse_quote!(ParseBuffer);
                self.hit = true;
            }
            _ => visit_mut::visit_type_mut(self, t),
        }
    }
}

/// `X = parsed.content;`
fn content_of(s: &Stmt) -> Option<String> {
    if let Stmt::Expr(Expr::Assign(a), Some(_)) = s {
        if let Expr::Field(f) = &*a.right {
            if matches!(&f.member, Member::Named(n) if n == "content") {
                return ident_of(&a.left);
            }
        }
    }
    None
}

fn opener(e: &Expr) -> Option<(&'static str, &ExprCall)> {
    if let Expr::Call(c) = e {
        if let (Expr::Path(p), 1) = (&*c.func, c.args.len()) {
            return match last(&p.path).as_str() {
                "parse_braces" => Some(("Braces", c)),
                "parse_parens" => Some(("Parens", c)),
                "parse_brackets" => Some(("Brackets", c)),
                _ => None,
            };
        }
    }
    None
}

/// the expansion of braced!(X in Y) and the like
fn opened(e: &Expr) -> Option<(String, &'static str, Expr, Ident)> {
    let Expr::Match(m) = e else { return None };
    let (ty, c) = opener(&m.expr)?;
    if m.arms.len() != 2 {
        return None;
    }
    let Expr::Block(b) = &*m.arms[0].body else { return None };
    let x = b.block.stmts.iter().find_map(content_of)?;
    let Expr::Path(f) = &*c.func else { return None };
    let arg = match &c.args[0] {
        Expr::Reference(r) => (*r.expr).clone(),
        e => e.clone(),
    };
    Some((x, ty, arg, f.path.segments.last()?.ident.clone()))
}

/// names of places of type ParseBuffer, and of references to one
#[derive(Default)]
struct Names {
    buffers: BTreeSet<String>,
    streams: BTreeSet<String>,
}
impl<'a> Visit<'a> for Names {
    fn visit_stmt(&mut self, s: &'a Stmt) {
        if let Some(x) = content_of(s) {
            self.buffers.insert(x);
        }
        visit::visit_stmt(self, s);
    }
    fn visit_arm(&mut self, a: &'a Arm) {
        for x in bound(&a.pat) {
            if reads(&a.body, &x) {
                self.buffers.insert(x);
            }
        }
        visit::visit_arm(self, a);
    }
}

fn bound(p: &Pat) -> Vec<String> {
    struct B(Vec<String>);
    impl<'a> Visit<'a> for B {
        fn visit_pat_tuple_struct(&mut self, t: &'a PatTupleStruct) {
            if last(&t.path) == "Some" && t.elems.len() == 1 {
                if let Pat::Ident(i) = &t.elems[0] {
                    self.0.push(i.ident.to_string());
                }
            }
            visit::visit_pat_tuple_struct(self, t);
        }
    }
    let mut b = B(vec![]);
    b.visit_pat(p);
    b.0
}

/// is something read from X here?
fn reads(e: &Expr, x: &str) -> bool {
    struct R<'x>(&'x str, bool);
    impl<'a, 'x> Visit<'a> for R<'x> {
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            let n = m.method.to_string();
            if matches!(n.as_str(), "parse" | "fork" | "peek" | "peek2") && ident_of(&m.receiver).as_deref() == Some(self.0) {
                self.1 = true;
            }
            if n == "parse" && m.args.iter().any(|a| matches!(a, Expr::Reference(r) if ident_of(&r.expr).as_deref() == Some(self.0))) {
                self.1 = true;
            }
            visit::visit_expr_method_call(self, m);
        }
    }
    let mut r = R(x, false);
    r.visit_expr(e);
    r.1
}

fn mentions<T: ToTokens>(t: &T, x: &str) -> bool {
    fn go(ts: proc_macro2::TokenStream, x: &str) -> bool {
        ts.into_iter().any(|t| match t {
            proc_macro2::TokenTree::Group(g) => go(g.stream(), x),
            proc_macro2::TokenTree::Ident(i) => i == x,
            _ => false,
        })
    }
    go(t.to_token_stream(), x)
}

/// is this Error::new(span, message)?
fn error_new(c: &ExprCall) -> bool {
    c.args.len() == 2 && matches!(&*c.func, Expr::Path(p) if p.path.segments.len() >= 2 && norm2(&p.path).ends_with("Error::new"))
}

/// the text of errors is not specified
struct Errors {
    notes: BTreeSet<String>,
}
impl VisitMut for Errors {
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        visit_mut::visit_expr_call_mut(self, c);
        if error_new(c) && norm2_of(&c.func).starts_with("syn::") {
            c.args[1] = parse_quote!(());
            self.notes.insert("text of syn errors dropped".into());
        }
    }
}
fn norm2_of(e: &Expr) -> String {
    match e {
        Expr::Path(p) => norm2(&p.path).trim_start_matches("::").to_string(),
        _ => String::new(),
    }
}

struct Bodies {
    names: Names,
    notes: BTreeSet<String>,
    n: usize,
}
impl Bodies {
    /// how a buffer is handed on
    fn place(&self, e: &Expr) -> Expr {
        match ident_of(e) {
            Some(x) if self.names.buffers.contains(&x) && !self.names.streams.contains(&x) => parse_quote!(&mut #e),
            _ => e.clone(),
        }
    }
    fn lets(&mut self, p: &mut Pat) -> Vec<Stmt> {
        // array patterns: name the array, then its items
        let mut out = Vec::new();
        struct S<'a>(&'a mut usize, &'a mut Vec<Stmt>);
        impl<'a> VisitMut for S<'a> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Slice(s) = p {
                    if s.elems.iter().all(|e| matches!(e, Pat::Ident(_))) {
                        *self.0 += 1;
                        let a = format_ident!("xt_arr{}", *self.0);
                        for (i, e) in s.elems.iter().enumerate() {
                            let i = proc_macro2::Literal::usize_unsuffixed(i);
                            self.1.push(parse_quote!(let #e = #a[#i];));
                        }
                        *p = parse_quote!(#a);
                    }
                    return;
                }
                visit_mut::visit_pat_mut(self, p);
            }
        }
        S(&mut self.n, &mut out).visit_pat_mut(p);
        if !out.is_empty() {
            self.notes.insert("array pattern [a, b] written as the array and its items by index".into());
        }
        out
    }
}
impl VisitMut for Bodies {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = Vec::new();
        for mut s in std::mem::take(&mut b.stmts) {
            if let Stmt::Expr(Expr::Assign(a), _) = &s {
                if matches!(&*a.left, Expr::Infer(_)) {
                    continue;
                }
            }
            let mut after = Vec::new();
            if let Stmt::Local(l) = &mut s {
                if let Pat::Ident(i) = &mut l.pat {
                    if l.init.is_none() && self.names.buffers.contains(&i.ident.to_string()) {
                        i.mutability = Some(Default::default());
                    }
                }
                after = self.lets(&mut l.pat);
            }
            out.push(s);
            out.extend(after);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        if let Expr::Let(l) = &mut *i.cond {
            let more = self.lets(&mut l.pat);
            for (k, s) in more.into_iter().enumerate() {
                i.then_branch.stmts.insert(k, s);
            }
        }
        visit_mut::visit_expr_if_mut(self, i);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        visit_mut::visit_expr_match_mut(self, m);
        for a in m.arms.iter_mut() {
            let mut pre: Vec<Stmt> = self.lets(&mut a.pat);
            for x in bound(&a.pat) {
                if self.names.buffers.contains(&x) && reads(&a.body, &x) {
                    let x = format_ident!("{}", x);
                    pre.push(parse_quote!(let mut #x = #x;));
                }
            }
            // string literals inside of a pattern: a guard
            struct L {
                n: usize,
                deep: usize,
                guards: Vec<Expr>,
            }
            impl VisitMut for L {
                fn visit_pat_mut(&mut self, p: &mut Pat) {
                    if let (Pat::Lit(ExprLit { lit: Lit::Str(s), .. }), true) = (&*p, self.deep > 0) {
                        self.n += 1;
                        let id = format_ident!("xt_s{}", self.n);
                        let s = s.clone();
                        self.guards.push(parse_quote!(xt_str_eq(#id, #s)));
                        *p = parse_quote!(#id);
                        return;
                    }
                    self.deep += 1;
                    visit_mut::visit_pat_mut(self, p);
                    self.deep -= 1;
                }
            }
            let mut l = L { n: self.n, deep: 0, guards: vec![] };
            l.visit_pat_mut(&mut a.pat);
            self.n = l.n;
            for g in l.guards {
                self.notes.insert("string literal inside a pattern written as a guard".into());
                a.guard = Some(match a.guard.take() {
                    None => (Default::default(), Box::new(g)),
                    Some((t, o)) => (t, parse_quote!(#g && #o)),
                });
            }
            if !pre.is_empty() {
                let b = &a.body;
                a.body = match &**b {
                    Expr::Block(blk) if blk.label.is_none() => {
                        let mut blk = blk.clone();
                        for (k, s) in pre.into_iter().enumerate() {
                            blk.block.stmts.insert(k, s);
                        }
                        Box::new(Expr::Block(blk))
                    }
                    b => parse_quote!({ #(#pre)* #b }),
                };
            }
            // a name for a whole pattern that nothing uses (any more)
            struct U<'x>(&'x Expr);
            impl<'x> VisitMut for U<'x> {
                fn visit_pat_mut(&mut self, p: &mut Pat) {
                    visit_mut::visit_pat_mut(self, p);
                    if let Pat::Ident(i) = &*p {
                        if let Some((_, sub)) = &i.subpat {
                            if !mentions(self.0, &i.ident.to_string()) {
                                *p = (**sub).clone();
                            }
                        }
                    }
                }
            }
            let body = (*a.body).clone();
            U(&body).visit_pat_mut(&mut a.pat);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some((x, ty, arg, f)) = opened(e) {
            let arg = self.place(&arg);
            let x = format_ident!("{}", x);
            let ty = format_ident!("{}", ty);
            *e = parse_quote!({ let #ty { content: xt_c, token: xt_t } = #f(#arg)?; #x = xt_c; xt_t });
            self.notes.insert("expansion of syn::braced!/parenthesized!/bracketed! written with `?` instead of the match it stands for".into());
            return;
        }
        match e {
            // the text of errors is not specified
            Expr::Call(c) if error_new(c) => {
                let a = &mut c.args[0];
                self.visit_expr_mut(a);
                c.args[1] = parse_quote!(());
                self.notes.insert("text of syn errors dropped".into());
            }
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "peek" | "peek2") && m.args.len() == 1 && matches!(&m.args[0], Expr::Path(_)) => {
                self.visit_expr_mut(&mut m.receiver);
                let p = m.args[0].clone();
                m.turbofish = Some(parse_quote!(::<#p>));
                m.args.clear();
                self.notes.insert("peek(T) written as peek::<T>()".into());
            }
            Expr::MethodCall(m) if m.method == "call" && m.args.len() == 1 && matches!(&m.args[0], Expr::Path(_)) => {
                let r = self.place(&m.receiver);
                let f = &m.args[0];
                *e = parse_quote!(#f(#r));
                self.notes.insert("x.call(f) written as f(x)".into());
            }
            Expr::Reference(r) if r.mutability.is_none() && ident_of(&r.expr).is_some_and(|x| self.names.buffers.contains(&x)) => {
                r.mutability = Some(Default::default());
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

fn norm2(p: &Path) -> String {
    let mut s = p.to_token_stream().to_string();
    s.retain(|c| !c.is_whitespace());
    s
}

pub fn pass(sig: &mut Signature, block: &mut Block) -> BTreeSet<String> {
    let mut t = Types { hit: false };
    t.visit_signature_mut(sig);
    t.visit_block_mut(block);
    if !t.hit {
        let mut e = Errors { notes: Default::default() };
        e.visit_block_mut(block);
        return e.notes;
    }
    let mut names = Names::default();
    let mut pre: Vec<Stmt> = Vec::new();
    for a in &sig.inputs {
        if let FnArg::Typed(p) = a {
            if let Pat::Ident(i) = &*p.pat {
                match &*p.ty {
                    Type::Reference(r) if is_ty(&r.elem, "ParseBuffer") => {
                        names.streams.insert(i.ident.to_string());
                    }
                    Type::Path(_) if is_ty(&p.ty, "ParseBuffer") => {
                        names.buffers.insert(i.ident.to_string());
                        let i = &i.ident;
                        pre.push(parse_quote!(let mut #i = #i;));
                    }
                    _ => {}
                }
            }
        }
    }
    names.visit_block(block);
    let mut b = Bodies { names, notes: Default::default(), n: 0 };
    b.notes.insert("syn parse buffers (advanced through a Cell) written as places advanced through a mutable reference".into());
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(p) = a {
            pre.extend(b.lets(&mut p.pat));
        }
    }
    b.visit_block_mut(block);
    for (k, s) in pre.into_iter().enumerate() {
        block.stmts.insert(k, s);
    }
    b.notes
}
