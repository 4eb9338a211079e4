//! Helper functions without a contract are put in at their call sites, where that is exact:
//! a caller that was split into helpers is then verified as one function again.
//!
//! Exact means: the callee is the only function of that name in the crate (or named by its
//! type), takes plain parameters, does not call itself, holds no object with a destructor
//! that acts on files, and its `return`s are returns of the caller too (call in tail position,
//! or `h(..)?` with `return Err(..)` only).  Arguments that are names, literals or
//! references to a place take the parameter's place; others become a `let` in front.
use crate::{norm, rng, FnSrc, World};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;
use std::rc::Rc;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

const STD: &[&str] = &["new", "len", "push", "pop", "get", "get_mut", "insert", "remove", "contains", "contains_key", "iter", "iter_mut", "next", "clone", "eq", "ne", "hash",
    "fmt", "add", "sub", "mul", "div", "neg", "sum", "map", "filter", "min", "max", "abs", "cmp", "partial_cmp", "index", "index_mut", "drop", "default", "from", "into", "as_ref", "as_mut", "extend", "clear", "take", "write", "read", "flush", "join", "set", "first", "last", "swap", "sort", "to_string", "deref", "id", "is_empty"];

struct Text<'a> {
    src: &'a str,
}
impl<'a> Text<'a> {
    fn of<T: Spanned>(&self, t: &T) -> String {
        self.src[rng(t.span())].to_string()
    }
}

fn edit(src: &str, base: Range<usize>, mut e: Vec<(Range<usize>, String)>) -> String {
    e.sort_by_key(|x| (x.0.start, std::cmp::Reverse(x.0.end)));
    let mut out = String::new();
    let mut pos = base.start;
    for (r, t) in e {
        if r.start < pos || r.end > base.end || r.start < base.start {
            continue;
        }
        out.push_str(&src[pos..r.start]);
        out.push_str(&t);
        pos = r.end;
    }
    out.push_str(&src[pos..base.end]);
    out
}

fn is_word(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c.is_alphanumeric() || c == '_') && !s.chars().next().unwrap().is_numeric()
}
/// a name or a chain of fields starting at one
fn is_place(s: &str) -> bool {
    s.split('.').enumerate().all(|(i, p)| if i == 0 { is_word(p) } else { !p.is_empty() && p.chars().all(|c| c.is_alphanumeric() || c == '_') })
}
fn words(s: &str) -> BTreeSet<String> {
    s.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|x| is_word(x)).map(|x| x.to_string()).collect()
}

#[derive(Default)]
struct Bound(BTreeSet<String>);
impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.0.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}
fn bound(b: &syn::Block) -> BTreeSet<String> {
    let mut v = Bound::default();
    v.visit_block(b);
    v.0
}

#[derive(Clone)]
enum Sub {
    Name(String),           // another name or literal
    Ref(bool, String),      // `&place` / `&mut place`
    SelfAs(String),         // receiver, a place
}

struct Subst<'a> {
    src: &'a str,
    m: &'a BTreeMap<String, Sub>,
    e: Vec<(Range<usize>, String)>,
    bad: Option<String>,
}
impl<'a> Subst<'a> {
    fn name(e: &syn::Expr) -> Option<String> {
        match e {
            syn::Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 => Some(p.path.segments[0].ident.to_string()),
            syn::Expr::Paren(p) => Subst::name(&p.expr),
            _ => None,
        }
    }
    fn place(&mut self, e: &syn::Expr) -> bool {
        if let Some(n) = Subst::name(e) {
            match self.m.get(&n) {
                Some(Sub::Ref(_, p)) | Some(Sub::SelfAs(p)) | Some(Sub::Name(p)) => {
                    self.e.push((rng(e.span()), p.clone()));
                    return true;
                }
                None => {}
            }
        }
        false
    }
    fn full(&mut self, n: &str) -> Option<String> {
        match self.m.get(n) {
            Some(Sub::Name(p)) => Some(p.clone()),
            Some(Sub::Ref(m, p)) => Some(format!("(&{}{})", if *m { "mut " } else { "" }, p)),
            Some(Sub::SelfAs(p)) if p == "self" => Some(p.clone()),
            Some(Sub::SelfAs(_)) => {
                self.bad = Some("receiver used as a value".into());
                None
            }
            None => None,
        }
    }
    fn tokens(&mut self, ts: proc_macro2::TokenStream, after_dot: bool) {
        let l: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
        use proc_macro2::TokenTree as T;
        for (i, t) in l.iter().enumerate() {
            match t {
                T::Ident(id) => {
                    let n = id.to_string();
                    if !self.m.contains_key(&n) {
                        continue;
                    }
                    let dot = if i == 0 { after_dot } else { matches!(&l[i - 1], T::Punct(p) if p.as_char() == '.') };
                    if dot {
                        continue;
                    }
                    let place = matches!(l.get(i + 1), Some(T::Punct(p)) if p.as_char() == '.') || matches!(l.get(i + 1), Some(T::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Bracket);
                    let v = if place {
                        match self.m.get(&n) {
                            Some(Sub::Ref(_, p)) | Some(Sub::SelfAs(p)) | Some(Sub::Name(p)) => Some(p.clone()),
                            None => None,
                        }
                    } else {
                        self.full(&n)
                    };
                    if let Some(v) = v {
                        self.e.push((rng(t.span()), v));
                    }
                }
                T::Group(g) => self.tokens(g.stream(), false),
                T::Literal(x) => {
                    let s = x.to_string();
                    for k in self.m.keys() {
                        if s.contains(&format!("{{{}}}", k)) || s.contains(&format!("{{{}:", k)) {
                            self.bad = Some("captured in a format string".into());
                        }
                    }
                }
                _ => {}
            }
        }
    }
}
impl<'a, 'b> Visit<'b> for Subst<'a> {
    fn visit_expr(&mut self, e: &'b syn::Expr) {
        match e {
            syn::Expr::Path(_) => {
                if let Some(n) = Subst::name(e) {
                    if let Some(t) = self.full(&n) {
                        self.e.push((rng(e.span()), t));
                    }
                }
            }
            syn::Expr::MethodCall(m) => {
                if !self.place(&m.receiver) {
                    self.visit_expr(&m.receiver);
                }
                for a in &m.args {
                    self.visit_expr(a);
                }
            }
            syn::Expr::Field(f) => {
                if !self.place(&f.base) {
                    self.visit_expr(&f.base);
                }
            }
            syn::Expr::Index(x) => {
                if !self.place(&x.expr) {
                    self.visit_expr(&x.expr);
                }
                self.visit_expr(&x.index);
            }
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
                if let Some(n) = Subst::name(&u.expr) {
                    match self.m.get(&n) {
                        Some(Sub::Ref(_, p)) => {
                            let p = p.clone();
                            self.e.push((rng(e.span()), p));
                            return;
                        }
                        Some(Sub::SelfAs(p)) if p != "self" => {
                            self.bad = Some("receiver dereferenced".into());
                            return;
                        }
                        _ => {}
                    }
                }
                visit::visit_expr(self, e);
            }
            syn::Expr::Struct(s) => {
                for f in &s.fields {
                    if f.colon_token.is_none() {
                        if let syn::Member::Named(id) = &f.member {
                            if let Some(t) = self.full(&id.to_string()) {
                                self.e.push((rng(f.span()), format!("{}: {}", id, t)));
                            }
                        }
                    } else {
                        self.visit_expr(&f.expr);
                    }
                }
                if let Some(r) = &s.rest {
                    self.visit_expr(r);
                }
            }
            syn::Expr::Macro(m) => self.tokens(m.mac.tokens.clone(), false),
            _ => visit::visit_expr(self, e),
        }
    }
    fn visit_macro(&mut self, m: &'b syn::Macro) {
        self.tokens(m.tokens.clone(), false);
    }
    fn visit_pat_ident(&mut self, p: &'b syn::PatIdent) {
        // a local that is renamed
        if let Some(Sub::Name(n)) = self.m.get(&p.ident.to_string()) {
            self.e.push((rng(p.ident.span()), n.clone()));
        }
        visit::visit_pat_ident(self, p);
    }
    fn visit_field_pat(&mut self, p: &'b syn::FieldPat) {
        if p.colon_token.is_none() {
            if let syn::Pat::Ident(i) = &*p.pat {
                if self.m.contains_key(&i.ident.to_string()) {
                    self.bad = Some("field pattern".into());
                }
            }
        }
        visit::visit_field_pat(self, p);
    }
}

struct Callee {
    src: Rc<String>,
    sig: syn::Signature,
    block: syn::Block,
}

/// `return`s (outside closures) and `?`
struct Exits<'a> {
    src: &'a str,
    ret: Vec<String>,
    other: bool,
    trys: usize,
}
impl<'a, 'b> Visit<'b> for Exits<'a> {
    fn visit_expr_closure(&mut self, _: &'b syn::ExprClosure) {}
    fn visit_expr_return(&mut self, r: &'b syn::ExprReturn) {
        self.ret.push(r.expr.as_ref().map(|e| norm(&self.src[rng(e.span())])).unwrap_or_default());
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'b syn::ExprTry) {
        self.trys += 1;
        visit::visit_expr_try(self, t);
    }
    fn visit_macro(&mut self, m: &'b syn::Macro) {
        let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        let t = norm(&m.tokens.to_string());
        if n == "bail" || n == "ensure" || n == "try_with" || n == "require_with" {
            self.ret.push("Err(".into());
        } else if !matches!(n.as_str(), "assert" | "assert_eq" | "assert_ne" | "debug_assert" | "debug_assert_eq" | "panic" | "unreachable" | "vec" | "format" | "write" | "writeln" | "println" | "matches" | "Vec") || t.contains("return") || t.contains('?') {
            self.other = true;
        }
    }
    fn visit_expr_async(&mut self, _: &'b syn::ExprAsync) {
        self.other = true;
    }
}

fn tails(e: &syn::Expr, out: &mut Vec<Range<usize>>) {
    out.push(rng(e.span()));
    match e {
        syn::Expr::If(i) => {
            tail_block(&i.then_branch, out);
            if let Some((_, e)) = &i.else_branch {
                tails(e, out);
            }
        }
        syn::Expr::Match(m) => m.arms.iter().for_each(|a| tails(&a.body, out)),
        syn::Expr::Block(b) if b.label.is_none() => tail_block(&b.block, out),
        syn::Expr::Paren(p) => tails(&p.expr, out),
        _ => {}
    }
}
fn tail_block(b: &syn::Block, out: &mut Vec<Range<usize>>) {
    if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
        tails(e, out);
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Ctx {
    Let,
    Semi,
    Assign,
    Tail,
    Expr,
}

#[derive(Clone)]
struct Site<'a> {
    ctx: Ctx,
    tried: bool,              // followed by `?`
    in_closure: bool,
    whole: Range<usize>,      // what is replaced
    pat: Option<syn::Pat>,
    patty: Option<String>,
    lhs: Option<String>,
    recv: Option<&'a syn::Expr>,
    args: Vec<&'a syn::Expr>,
    callee: usize,
}

struct Finder<'a, 'w> {
    src: &'w str,
    w: &'w World,
    caller: &'w FnSrc,
    base: String,
    locals: BTreeSet<String>,
    tails: Vec<Range<usize>>,
    closure: usize,
    found: Vec<Site<'a>>,
}

pub fn base_of(f: &FnSrc) -> Option<String> {
    f.hdr.as_ref().map(|h| h.self_ty.split('<').next().unwrap().trim().trim_start_matches('&').to_string())
}

fn helper_ok(w: &World, f: &FnSrc) -> bool {
    if f.hdr.as_ref().map(|h| h.in_trait_impl).unwrap_or(false) || f.sig.abi.is_some() || f.sig.asyncness.is_some() || f.sig.variadic.is_some() {
        return false;
    }
    let n = f.sig.ident.to_string();
    let pre = format!("{}!", f.key);
    !w.spec.fns.contains_key(&f.key) && !w.spec.fns.keys().any(|k| k.starts_with(&pre)) && !w.spec.method_map.contains_key(&n) && !w.spec.world.contains(&n)
        && !w.spec.path_map.keys().any(|k| *k == n || k.ends_with(&format!("::{}", n)))
}

impl<'a, 'w> Finder<'a, 'w> {
    fn resolve(&self, e: &'a syn::Expr) -> Option<(usize, Option<&'a syn::Expr>, Vec<&'a syn::Expr>)> {
        match e {
            syn::Expr::Call(c) => {
                let p = match &*c.func {
                    syn::Expr::Path(p) if p.qself.is_none() => &p.path,
                    _ => return None,
                };
                let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
                let n = segs.last().unwrap().clone();
                let cand: Vec<usize> = match segs.len() {
                    1 => {
                        if self.locals.contains(&n) {
                            return None;
                        }
                        (0..self.w.fns.len()).filter(|i| self.w.fns[*i].hdr.is_none() && self.w.fns[*i].key == n).collect()
                    }
                    _ => {
                        let q = &segs[segs.len() - 2];
                        let t = if q == "Self" { self.base.clone() } else { q.clone() };
                        let m: Vec<usize> = (0..self.w.fns.len()).filter(|i| base_of(&self.w.fns[*i]).as_deref() == Some(&t) && self.w.fns[*i].sig.ident == n).collect();
                        if m.is_empty() && (q == "super" || q == "crate" || q == "self" || q.chars().next().unwrap().is_lowercase()) {
                            (0..self.w.fns.len()).filter(|i| self.w.fns[*i].hdr.is_none() && self.w.fns[*i].key == n).collect()
                        } else {
                            m
                        }
                    }
                };
                if cand.len() != 1 || !helper_ok(self.w, &self.w.fns[cand[0]]) {
                    return None;
                }
                let mut args: Vec<&syn::Expr> = c.args.iter().collect();
                let f = &self.w.fns[cand[0]];
                let recv = if f.sig.receiver().is_some() {
                    if args.is_empty() {
                        return None;
                    }
                    Some(args.remove(0))
                } else {
                    None
                };
                Some((cand[0], recv, args))
            }
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let is_self = matches!(Subst::name(&m.receiver).as_deref(), Some("self"));
                let cand: Vec<usize> = if is_self {
                    (0..self.w.fns.len()).filter(|i| base_of(&self.w.fns[*i]).as_deref() == Some(&self.base) && self.w.fns[*i].sig.ident == n).collect()
                } else {
                    if STD.contains(&n.as_str()) || self.w.traits.values().any(|(_, t, _)| t.items.iter().any(|i| matches!(i, syn::TraitItem::Fn(f) if f.sig.ident == n))) {
                        return None;
                    }
                    (0..self.w.fns.len()).filter(|i| self.w.fns[*i].hdr.is_some() && self.w.fns[*i].sig.ident == n).collect()
                };
                if cand.len() != 1 || !helper_ok(self.w, &self.w.fns[cand[0]]) || self.w.fns[cand[0]].sig.receiver().is_none() {
                    return None;
                }
                Some((cand[0], Some(&*m.receiver), m.args.iter().collect()))
            }
            syn::Expr::Paren(p) => self.resolve(&p.expr),
            _ => None,
        }
    }
    fn site(&mut self, e: &'a syn::Expr, ctx: Ctx, whole: Range<usize>, pat: Option<(syn::Pat, Option<String>)>, lhs: Option<String>) -> bool {
        let (x, tried) = match e {
            syn::Expr::Try(t) => (&*t.expr, true),
            _ => (e, false),
        };
        if let Some((callee, recv, args)) = self.resolve(x) {
            // innermost first: calls in the arguments
            let n = self.found.len();
            if let Some(r) = recv {
                self.visit_expr(r);
            }
            for a in &args {
                self.visit_expr(a);
            }
            if self.found.len() > n {
                return true;
            }
            let (pat, patty) = pat.map(|(p, t)| (Some(p), t)).unwrap_or((None, None));
            self.found.push(Site { ctx, tried, in_closure: self.closure > 0, whole, pat, patty, lhs, recv, args, callee });
            return true;
        }
        false
    }
}
impl<'a, 'w> Visit<'a> for Finder<'a, 'w> {
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        let w = rng(s.span());
        match s {
            syn::Stmt::Local(l) => {
                if let Some(i) = &l.init {
                    if i.diverge.is_none() {
                        let (p, t) = match &l.pat {
                            syn::Pat::Type(t) => ((*t.pat).clone(), Some(self.src[rng(t.ty.span())].to_string())),
                            p => (p.clone(), None),
                        };
                        if self.site(&i.expr, Ctx::Let, w, Some((p, t)), None) {
                            return;
                        }
                    }
                }
            }
            syn::Stmt::Expr(e, Some(_)) => {
                if let syn::Expr::Assign(a) = e {
                    let l = self.src[rng(a.left.span())].to_string();
                    if self.site(&a.right, Ctx::Assign, w, None, Some(l)) {
                        return;
                    }
                } else if let syn::Expr::Return(r) = e {
                    if let Some(x) = &r.expr {
                        if self.site(x, Ctx::Expr, rng(x.span()), None, None) {
                            return;
                        }
                    }
                } else if self.site(e, Ctx::Semi, w, None, None) {
                    return;
                }
            }
            syn::Stmt::Expr(e, None) => {
                if self.tails.contains(&rng(e.span())) && self.closure == 0 {
                    if self.site(e, Ctx::Tail, w, None, None) {
                        return;
                    }
                }
            }
            _ => {}
        }
        visit::visit_stmt(self, s);
    }
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        if self.site(e, Ctx::Expr, rng(e.span()), None, None) {
            return;
        }
        visit::visit_expr(self, e);
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        self.closure += 1;
        visit::visit_expr_closure(self, c);
        self.closure -= 1;
    }
}

fn ty_args(t: &syn::Type) -> Option<(String, Vec<String>)> {
    if let syn::Type::Path(p) = t {
        let l = p.path.segments.last()?;
        let mut a = vec![];
        if let syn::PathArguments::AngleBracketed(g) = &l.arguments {
            for x in &g.args {
                a.push(norm(&quote::ToTokens::to_token_stream(x).to_string()));
            }
        }
        return Some((l.ident.to_string(), a));
    }
    None
}
fn err_ty(s: &syn::Signature) -> Option<String> {
    match &s.output {
        syn::ReturnType::Type(_, t) => {
            let (n, a) = ty_args(t)?;
            if n != "Result" && n != "Option" {
                return None;
            }
            Some(if n == "Option" { "None".into() } else { a.get(1).cloned().unwrap_or_default() })
        }
        _ => None,
    }
}

// ------------------------------------------------------------ early returns as values

fn has_return(src: &str, f: impl Fn(&mut Exits), bad: &dyn Fn(&str) -> bool) -> bool {
    let mut e = Exits { src, ret: vec![], other: false, trys: 0 };
    f(&mut e);
    e.ret.iter().any(|r| bad(r))
}
fn is_err(r: &str) -> bool {
    r.starts_with("Err(") || r == "None"
}

struct Elim<'a> {
    src: &'a str,
    bad: &'a dyn Fn(&str) -> bool,
}
impl<'a> Elim<'a> {
    fn t<T: Spanned>(&self, x: &T) -> String {
        self.src[rng(x.span())].to_string()
    }
    fn stmt_bad(&self, s: &syn::Stmt) -> bool {
        has_return(self.src, |e| e.visit_stmt(s), self.bad)
    }
    fn expr_bad(&self, s: &syn::Expr) -> bool {
        has_return(self.src, |e| e.visit_expr(s), self.bad)
    }
    /// does control never leave the end of it (syntactically)
    fn leaves(&self, b: &[syn::Stmt]) -> bool {
        match b.last() {
            Some(syn::Stmt::Expr(e, _)) => self.leaves_expr(e),
            _ => false,
        }
    }
    fn leaves_expr(&self, e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Return(_) => true,
            syn::Expr::Block(b) => self.leaves(&b.block.stmts),
            syn::Expr::If(i) => self.leaves(&i.then_branch.stmts) && i.else_branch.as_ref().map(|(_, e)| self.leaves_expr(e)).unwrap_or(false),
            syn::Expr::Match(m) => m.arms.iter().all(|a| self.leaves_expr(&a.body)),
            _ => false,
        }
    }
    fn fits(&self, names: &BTreeSet<String>, rest: &str) -> bool {
        let w = words(rest);
        names.iter().all(|n| !w.contains(n))
    }
    /// the contents of a block as text that ends in the value; `rest` follows where control goes on
    fn seq(&self, b: &[syn::Stmt], rest: &str, used: &mut usize) -> Option<String> {
        let mut front = String::new();
        for (i, s) in b.iter().enumerate() {
            if !self.stmt_bad(s) {
                front.push_str(&self.t(s));
                front.push('\n');
                continue;
            }
            let tail = &b[i + 1..];
            let mut sub = 0;
            let after = if tail.is_empty() && rest.is_empty() { String::new() } else { self.seq(tail, rest, &mut sub)? };
            *used += sub;
            let v = match s {
                syn::Stmt::Expr(e, _) => self.ctl(e, &after)?,
                syn::Stmt::Local(l) => {
                    let init = l.init.as_ref()?;
                    if let Some((_, d)) = &init.diverge {
                        if self.expr_bad(&init.expr) {
                            return None;
                        }
                        format!("match {} {{ {} => {{ {} }}, _ => {{ {} }} }}", self.t(&*init.expr), self.t(&l.pat), after, self.ctl(d, "")?)
                    } else if let syn::Expr::Match(m) = &*init.expr {
                        if self.expr_bad(&m.expr) || m.arms.iter().filter(|a| !self.leaves_expr(&a.body)).count() > 1 {
                            return None;
                        }
                        let mut o = format!("match {} {{\n", self.t(&*m.expr));
                        for a in &m.arms {
                            let g = a.guard.as_ref().map(|(_, g)| format!(" if {}", self.t(&**g))).unwrap_or_default();
                            if self.leaves_expr(&a.body) {
                                o.push_str(&format!("{}{} => {{ {} }},\n", self.t(&a.pat), g, self.ctl(&a.body, "")?));
                            } else {
                                let mut bd = Bound::default();
                                bd.visit_pat(&a.pat);
                                let mut lp = Bound::default();
                                lp.visit_pat(&l.pat);
                                let extra: BTreeSet<String> = bd.0.difference(&lp.0).cloned().collect();
                                if self.expr_bad(&a.body) || !self.fits(&extra, &after) {
                                    return None;
                                }
                                o.push_str(&format!("{}{} => {{ let {} = {};\n{} }},\n", self.t(&a.pat), g, self.t(&l.pat), self.t(&*a.body), after));
                            }
                        }
                        o.push('}');
                        o
                    } else {
                        return None;
                    }
                }
                _ => return None,
            };
            return Some(format!("{}{}", front, v));
        }
        if !rest.is_empty() {
            if *used > 0 {
                return None;
            }
            *used += 1;
            // a value at the end of a block that goes on is a unit value
            if let Some(syn::Stmt::Expr(_, None)) = b.last() {
                let n = front.trim_end().len();
                front.truncate(n);
                front.push_str(";\n");
            }
            front.push_str(rest);
        }
        Some(front)
    }
    /// a control expression with returns in it as a value
    fn ctl(&self, e: &syn::Expr, rest: &str) -> Option<String> {
        let mut used = 0;
        self.ctl_n(e, rest, &mut used)
    }
    fn block(&self, b: &syn::Block, rest: &str, used: &mut usize) -> Option<String> {
        if self.leaves(&b.stmts) || (self.seq_never(&b.stmts)) {
            self.seq(&b.stmts, "", &mut 0)
        } else {
            if !self.fits(&bound(b), rest) {
                return None;
            }
            self.seq(&b.stmts, rest, used)
        }
    }
    fn seq_never(&self, b: &[syn::Stmt]) -> bool {
        matches!(b.last(), Some(syn::Stmt::Macro(m)) if m.mac.path.is_ident("panic") || m.mac.path.is_ident("unreachable"))
    }
    fn ctl_n(&self, e: &syn::Expr, rest: &str, used: &mut usize) -> Option<String> {
        match e {
            syn::Expr::Return(r) => Some(r.expr.as_ref().map(|x| if self.expr_bad(x) { None } else { Some(self.t(&**x)) }).unwrap_or(Some("()".into()))?),
            syn::Expr::Block(b) if b.label.is_none() => self.block(&b.block, rest, used),
            syn::Expr::If(i) => {
                if self.expr_bad(&i.cond) {
                    return None;
                }
                let mut bd = Bound::default();
                bd.visit_expr(&i.cond);
                if !self.leaves(&i.then_branch.stmts) && !self.fits(&bd.0, rest) {
                    return None;
                }
                let a = self.block(&i.then_branch, rest, used)?;
                let b = match &i.else_branch {
                    Some((_, e)) => self.ctl_n(e, rest, used)?,
                    None => {
                        if *used > 0 && !rest.is_empty() {
                            return None;
                        }
                        *used += 1;
                        rest.to_string()
                    }
                };
                Some(format!("if {} {{ {} }} else {{ {} }}", self.t(&*i.cond), a, b))
            }
            syn::Expr::Match(m) => {
                if self.expr_bad(&m.expr) {
                    return None;
                }
                let mut o = format!("match {} {{\n", self.t(&*m.expr));
                for a in &m.arms {
                    let g = a.guard.as_ref().map(|(_, g)| format!(" if {}", self.t(&**g))).unwrap_or_default();
                    let mut bd = Bound::default();
                    bd.visit_pat(&a.pat);
                    if !self.leaves_expr(&a.body) && !self.fits(&bd.0, rest) {
                        return None;
                    }
                    o.push_str(&format!("{}{} => {{ {} }},\n", self.t(&a.pat), g, self.ctl_n(&a.body, rest, used)?));
                }
                o.push('}');
                Some(o)
            }
            _ => {
                if self.expr_bad(e) {
                    return None;
                }
                if rest.is_empty() {
                    Some(self.t(e))
                } else {
                    if *used > 0 {
                        return None;
                    }
                    *used += 1;
                    Some(format!("{};\n{}", self.t(e), rest))
                }
            }
        }
    }
}

/// the value with `Ok` taken off at every end; `Err` ends return
fn unwrap_ok(src: &str, e: &syn::Expr) -> Option<String> {
    let t = |e: &syn::Expr| src[rng(e.span())].to_string();
    let blk = |b: &syn::Block| -> Option<String> {
        match b.stmts.last() {
            Some(syn::Stmt::Expr(x, None)) => {
                let v = unwrap_ok(src, x)?;
                let r = rng(b.span());
                Some(format!("{{ {}{} }}", &src[r.start + 1..rng(x.span()).start], v))
            }
            Some(syn::Stmt::Expr(syn::Expr::Return(_), Some(_))) => Some(src[rng(b.span())].to_string()),
            _ => None,
        }
    };
    match e {
        syn::Expr::Call(c) if c.args.len() == 1 => match norm(&src[rng(c.func.span())]).as_str() {
            "Ok" => Some(t(&c.args[0])),
            "Err" => Some(format!("return {}", t(e))),
            _ => None,
        },
        syn::Expr::Return(_) => Some(t(e)),
        syn::Expr::Paren(p) => unwrap_ok(src, &p.expr),
        syn::Expr::Block(b) if b.label.is_none() => blk(&b.block),
        syn::Expr::If(i) => {
            let (_, el) = i.else_branch.as_ref()?;
            Some(format!("if {} {} else {}", t(&i.cond), blk(&i.then_branch)?, match &**el {
                syn::Expr::If(_) => unwrap_ok(src, el)?,
                _ => unwrap_ok(src, el)?,
            }))
        }
        syn::Expr::Match(m) => {
            let mut o = format!("match {} {{\n", t(&m.expr));
            for a in &m.arms {
                let g = a.guard.as_ref().map(|(_, g)| format!(" if {}", t(g))).unwrap_or_default();
                o.push_str(&format!("{}{} => {},\n", src[rng(a.pat.span())].to_string(), g, unwrap_ok(src, &a.body)?));
            }
            o.push('}');
            Some(o)
        }
        _ => None,
    }
}

/// the text that stands for the call, or why not
fn expand(w: &World, caller: &FnSrc, csrc: &str, cblock: &syn::Block, s: &Site, seq: usize) -> Result<String, String> {
    let f0 = &w.fns[s.callee];
    let hs = Text { src: &f0.src };
    let cs = Text { src: csrc };
    let name = f0.sig.ident.to_string();
    let body_txt = f0.src[rng(f0.block.span())].to_string();
    let bw = words(&body_txt);
    if bw.contains(&name) {
        return Err("calls itself".into());
    }
    if bw.contains("impl") {
        return Err("item in a helper".into());
    }
    let mut f = Callee { src: f0.src.clone(), sig: f0.sig.clone(), block: f0.block.clone() };
    // ------------------------------------------------ how it returns
    let mut ex = Exits { src: &f.src, ret: vec![], other: false, trys: 0 };
    ex.visit_block(&f.block);
    if ex.other {
        return Err("macro".into());
    }
    let passes = !s.in_closure && s.tried && s.ctx != Ctx::Expr && err_ty(&f.sig).is_some() && err_ty(&f.sig) == err_ty(&caller.sig);
    let mut ret_ok = passes;
    if !ex.ret.is_empty() || ex.trys > 0 {
        if s.in_closure {
            return Err("returns inside a closure".into());
        }
        let mut tl = vec![];
        tail_block(cblock, &mut tl);
        let tail = s.ctx == Ctx::Tail && !s.tried;
        if tail {
            ret_ok = true;
        } else {
            if ex.trys > 0 && !passes {
                return Err("`?` in a helper".into());
            }
            let bad = |r: &str| !passes || !is_err(r);
            if ex.ret.iter().any(|r| bad(r)) {
                let e = Elim { src: &f.src, bad: &bad };
                let b = e.seq(&f.block.stmts, "", &mut 0).ok_or("returns early")?;
                let text = format!("{{ {} }}", b);
                f.block = syn::parse_str::<syn::Block>(&text).map_err(|e| format!("returns early: {}", e))?;
                f.src = Rc::new(text);
                let mut ex2 = Exits { src: &f.src, ret: vec![], other: false, trys: 0 };
                ex2.visit_block(&f.block);
                if ex2.ret.iter().any(|r| bad(r)) {
                    return Err("returns early".into());
                }
                ex = ex2;
            }
        }
    }
    let f = &f;
    // ------------------------------------------------ parameters
    let helper_bound = bound(&f.block);
    let mut m: BTreeMap<String, Sub> = BTreeMap::new();
    let mut lets: Vec<(String, String, String)> = vec![]; // name, type, value
    let mut mutref_args: BTreeSet<String> = BTreeSet::new();
    for a in &s.args {
        if let syn::Expr::Reference(r) = a {
            if r.mutability.is_some() {
                mutref_args.extend(words(&cs.of(&*r.expr)).into_iter().take(1));
            }
        }
    }
    let params: Vec<&syn::PatType> = f.sig.inputs.iter().filter_map(|p| if let syn::FnArg::Typed(t) = p { Some(t) } else { None }).collect();
    if params.len() != s.args.len() {
        return Err("arity".into());
    }
    let mut arg_words: BTreeSet<String> = BTreeSet::new();
    if let Some(r) = s.recv {
        let mut t = cs.of(r);
        let mut rr = r;
        while let syn::Expr::Reference(x) = rr {
            rr = &x.expr;
            t = cs.of(rr);
        }
        if !is_place(&t) {
            return Err("receiver is not a place".into());
        }
        if let Some(syn::FnArg::Receiver(x)) = f.sig.inputs.first() {
            if x.reference.is_none() && x.mutability.is_some() {
                return Err("mut self".into());
            }
        }
        arg_words.extend(words(&t));
        m.insert("self".into(), Sub::SelfAs(t));
    }
    let plain_generics = f.sig.generics.type_params().next().is_none();
    for (p, a) in params.iter().zip(s.args.iter()) {
        let (n, mutable) = match &*p.pat {
            syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => (i.ident.to_string(), i.mutability.is_some()),
            syn::Pat::Wild(_) => continue,
            _ => return Err("parameter pattern".into()),
        };
        let mut a = *a;
        while let syn::Expr::Paren(x) = a {
            a = &x.expr;
        }
        let at = cs.of(a);
        let by_ref = matches!(&*p.ty, syn::Type::Reference(_));
        let rebound = helper_bound.contains(&n);
        if !mutable && !rebound {
            match a {
                syn::Expr::Path(_) if is_word(&at) && !mutref_args.contains(&at) => {
                    arg_words.insert(at.clone());
                    m.insert(n, Sub::Name(at));
                    continue;
                }
                syn::Expr::Lit(l) if !matches!(l.lit, syn::Lit::Str(_)) && plain_generics => {
                    m.insert(n, Sub::Name(at));
                    continue;
                }
                syn::Expr::Reference(r) if by_ref => {
                    let pt = cs.of(&*r.expr);
                    if is_place(&norm(&pt)) && (r.mutability.is_some() || !mutref_args.contains(pt.split('.').next().unwrap())) {
                        arg_words.extend(words(&pt));
                        m.insert(n, Sub::Ref(r.mutability.is_some(), norm(&pt)));
                        continue;
                    }
                }
                _ => {}
            }
        } else if mutable && !rebound && is_word(&at) && at == n {
            // `mut p` given a name that is the same: only if the caller does not use it again; keep it simple
            return Err("mutable parameter".into());
        }
        let ty = hs.of(&*p.ty);
        lets.push((format!("{}{}", if mutable { "mut " } else { "" }, n), if plain_generics { ty } else { String::new() }, at));
    }
    // names bound by the helper that would capture names in the arguments
    let caller_bound: BTreeSet<String> = {
        let mut b = bound(cblock);
        for p in caller.sig.inputs.iter() {
            if let syn::FnArg::Typed(t) = p {
                let mut v = Bound::default();
                v.visit_pat(&t.pat);
                b.extend(v.0);
            }
        }
        b
    };
    let let_names: Vec<String> = lets.iter().map(|l| l.0.trim_start_matches("mut ").to_string()).collect();
    let late_words: BTreeSet<String> = lets.iter().flat_map(|l| words(&l.2)).collect();
    for n in helper_bound.iter().chain(let_names.iter()) {
        if arg_words.contains(n) || (let_names.contains(n) && late_words.contains(n) && lets.len() > 1) {
            m.insert(n.clone(), Sub::Name(format!("{}__i{}", n, seq)));
        }
    }
    // ------------------------------------------------ the body
    let mut v = Subst { src: &f.src, m: &m, e: vec![], bad: None };
    v.visit_block(&f.block);
    let _ = v.src;
    if let Some(b) = v.bad {
        return Err(b);
    }
    let mut edits = v.e;
    if let (Some(hb), true) = (base_of(f0), bw.contains("Self")) {
        if base_of(caller).as_deref() != Some(&hb) {
            struct S(Vec<Range<usize>>);
            impl<'x> Visit<'x> for S {
                fn visit_path(&mut self, p: &'x syn::Path) {
                    if p.segments[0].ident == "Self" {
                        self.0.push(rng(p.segments[0].ident.span()));
                    }
                    visit::visit_path(self, p);
                }
            }
            let mut sv = S(vec![]);
            sv.visit_block(&f.block);
            edits.extend(sv.0.into_iter().map(|r| (r, hb.clone())));
        }
    }
    let stmts = &f.block.stmts;
    let (front, tail) = match stmts.last() {
        Some(syn::Stmt::Expr(e, None)) if !matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_)) => (&stmts[..stmts.len() - 1], Some(e)),
        Some(syn::Stmt::Expr(syn::Expr::Return(r), Some(_))) if r.expr.is_some() && ex.ret.len() == 1 && s.ctx != Ctx::Tail => (&stmts[..stmts.len() - 1], r.expr.as_deref()),
        _ => (&stmts[..], None),
    };
    let unit = matches!(f.sig.output, syn::ReturnType::Default);
    let br = rng(f.block.span());
    let front_end = front.last().map(|x| rng(x.span()).end).unwrap_or(br.start + 1);
    let mut st = String::new();
    for (n, t, x) in &lets {
        let bare = n.trim_start_matches("mut ");
        let n2 = match m.get(bare) {
            Some(Sub::Name(z)) => n.replace(bare, z),
            _ => n.clone(),
        };
        if t.is_empty() {
            st.push_str(&format!("let {} = {};\n", n2, x));
        } else {
            st.push_str(&format!("let {}: {} = {};\n", n2, t, x));
        }
    }
    st.push_str(&edit(&f.src, br.start + 1..front_end, edits.clone()));
    let mut tt = tail.map(|e| edit(&f.src, rng(e.span()), edits.clone()));
    if tt.is_none() && !unit && !ret_ok {
        // diverges or returns on all paths
        return Err("no value at the end".into());
    }
    // `?` on a known Ok
    let mut tried = s.tried;
    if tried && passes {
        if let Some(t) = &tt {
            if let Ok(x) = syn::parse_str::<syn::Expr>(t) {
                if let Some(v) = unwrap_ok(t, &x) {
                    tt = Some(v);
                    tried = false;
                }
            }
        }
    }
    let q = if tried { "?" } else { "" };
    let val = |t: &str| -> String { if tried { format!("({}){}", t, q) } else { t.to_string() } };
    let no_front = front.is_empty() && lets.is_empty();
    // names that would meet names of the caller
    let mut tb = Bound::default();
    for x in front {
        if let syn::Stmt::Local(l) = x {
            tb.visit_pat(&l.pat);
        }
    }
    let top_bound = tb.0;
    let mut mine: BTreeSet<String> = top_bound.iter().chain(let_names.iter()).map(|n| match m.get(n) { Some(Sub::Name(z)) => z.clone(), _ => n.clone() }).collect();
    let mut outside = caller_bound;
    let mut same: Vec<(String, String)> = vec![]; // pattern parts and values
    if s.ctx == Ctx::Let {
        let parts = |t: &str| -> Vec<String> {
            match syn::parse_str::<syn::Expr>(t) {
                Ok(syn::Expr::Tuple(x)) => x.elems.iter().map(|e| norm(&quote::ToTokens::to_token_stream(e).to_string())).collect(),
                _ => vec![norm(t)],
            }
        };
        let t = tt.clone().unwrap_or("()".into());
        let pats: Vec<syn::Pat> = match s.pat.as_ref().unwrap() {
            syn::Pat::Tuple(p) => p.elems.iter().cloned().collect(),
            p => vec![p.clone()],
        };
        let ps = parts(&t);
        if !tried && ps.len() == pats.len() && ps.iter().all(|p| is_word(p)) && pats.iter().all(|p| matches!(p, syn::Pat::Ident(_))) {
            for (p, v) in pats.iter().zip(ps.iter()) {
                same.push((norm(&quote::ToTokens::to_token_stream(p).to_string()), v.clone()));
            }
            // a name that only the replaced `let` binds may be bound by the helper instead
            for (p, v) in &same {
                let bare = p.trim_start_matches("mut ");
                if bare == v {
                    mine.remove(v);
                }
            }
        }
        let _ = &mut outside;
    }
    let clash = mine.iter().any(|n| outside.contains(n));
    let body = format!("{}\n", st);
    Ok(match s.ctx {
        Ctx::Let => {
            let pt = cs.of(s.pat.as_ref().unwrap());
            let ann = s.patty.as_ref().map(|t| format!(": {}", t)).unwrap_or_default();
            let t = tt.unwrap_or("()".into());
            if clash {
                format!("let {}{} = ({{ {}{} }}){};", pt, ann, body, t, q)
            } else if !same.is_empty() && same.len() > 1 {
                let mut o = body;
                for (p, v) in &same {
                    if p.trim_start_matches("mut ") != v {
                        o.push_str(&format!("let {} = {};\n", p, v));
                    }
                }
                o
            } else if same.len() == 1 && same[0].0.trim_start_matches("mut ") == same[0].1 {
                if no_front { format!("let {}{} = {};", pt, ann, same[0].1) } else { body }
            } else {
                format!("{}let {}{} = {};", body, pt, ann, val(&t))
            }
        }
        Ctx::Semi | Ctx::Assign => {
            let t = tt.unwrap_or("()".into());
            let fin = if s.ctx == Ctx::Assign {
                format!("{} = {};", s.lhs.as_ref().unwrap(), val(&t))
            } else if !tried && s.ctx == Ctx::Semi && (is_word(&t) || norm(&t) == "()") {
                String::new()
            } else {
                format!("{};", val(&t))
            };
            if clash && ret_ok && s.ctx == Ctx::Assign {
                return Err("names".into());
            }
            if clash { format!("{{ {}{} }}", body, fin) } else { format!("{}{}", body, fin) }
        }
        Ctx::Tail => {
            let t = tt.map(|t| val(&t)).unwrap_or_default();
            if clash { format!("{{ {}{} }}", body, t) } else { format!("{}{}", body, t) }
        }
        Ctx::Expr => {
            let t = tt.unwrap_or("()".into());
            if no_front { format!("({}){}", t, q) } else { format!("({{ {}{} }}){}", body, t, q) }
        }
    })
}

/// one round: the first site that can be expanded
fn step(w: &World, f: &FnSrc, seq: usize, why: &mut Vec<String>) -> Option<(String, Rc<String>, syn::Signature, syn::Block)> {
    let base = base_of(f).unwrap_or_default();
    let mut locals = bound(&f.block);
    for p in f.sig.inputs.iter() {
        if let syn::FnArg::Typed(t) = p {
            let mut v = Bound::default();
            v.visit_pat(&t.pat);
            locals.extend(v.0);
        }
    }
    let mut tl = vec![];
    tail_block(&f.block, &mut tl);
    let mut fi = Finder { src: &f.src, w, caller: f, base, locals, tails: tl, closure: 0, found: vec![] };
    fi.visit_block(&f.block);
    let _ = fi.caller;
    for s in fi.found {
        match expand(w, f, &f.src, &f.block, &s, seq) {
            Ok(t) => {
                let r0 = rng(f.sig.span()).start;
                let r1 = rng(f.block.span()).end;
                let text = format!("{}{}{}", &f.src[r0..s.whole.start], t, &f.src[s.whole.end..r1]);
                let p: Result<(syn::Signature, syn::Block), syn::Error> =
                    if f.hdr.is_some() { syn::parse_str::<syn::ImplItemFn>(&text).map(|x| (x.sig, x.block)) } else { syn::parse_str::<syn::ItemFn>(&text).map(|x| (x.sig, *x.block)) };
                match p {
                    Ok((sig, block)) => return Some((w.fns[s.callee].key.clone(), Rc::new(text), sig, block)),
                    Err(e) => why.push(format!("{}: {}", w.fns[s.callee].key, e)),
                }
            }
            Err(e) => why.push(format!("{}: {}", w.fns[s.callee].key, e)),
        }
    }
    None
}

pub fn run(w: &mut World) {
    for i in 0..w.fns.len() {
        if !w.spec.fns.contains_key(&w.fns[i].key) {
            continue;
        }
        for seq in 0..16 {
            let mut why = vec![];
            let r = step(w, &w.fns[i], seq, &mut why);
            for x in why {
                let n = format!("{}: not inlined: {}", w.fns[i].key, x);
                if !w.notes.contains(&n) {
                    w.notes.push(n);
                }
            }
            match r {
                Some((callee, src, sig, block)) => {
                    w.notes.push(format!("{}: {} inlined", w.fns[i].key, callee));
                    let f = &mut w.fns[i];
                    f.src = src;
                    f.sig = sig;
                    f.block = block;
                }
                None => break,
            }
        }
    }
}
