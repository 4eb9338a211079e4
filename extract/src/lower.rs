//! Lowering of one function body: the source text is kept, and only the
//! constructs Verus does not take are replaced, child by child.
use crate::spec::FnSpec;
use crate::{norm, rng, FnSrc, World};
use std::ops::Range;
use syn::spanned::Spanned;

pub struct Emitted {
    pub text: String,
    pub loops: usize,
    pub callees: Vec<String>,
}

/// decimal float literal -> exact rational `real` expression
pub fn real_lit(s: &str) -> Option<String> {
    let t = s.trim().replace('_', "");
    let (neg, t) = match t.strip_prefix('-') {
        Some(r) => (true, r.trim().to_string()),
        None => (false, t),
    };
    let t = t.trim_end_matches("f64").to_string();
    let (mant, exp) = match t.find(|c| c == 'e' || c == 'E') {
        Some(k) => (t[..k].to_string(), t[k + 1..].parse::<i32>().ok()?),
        None => (t.clone(), 0),
    };
    let (ip, fp) = match mant.find('.') {
        Some(k) => (mant[..k].to_string(), mant[k + 1..].to_string()),
        None => (mant.clone(), String::new()),
    };
    if !ip.chars().all(|c| c.is_ascii_digit()) || !fp.chars().all(|c| c.is_ascii_digit()) {
        return None;
    }
    if ip.is_empty() && fp.is_empty() {
        return None;
    }
    let mut digits = format!("{}{}", ip, fp);
    let mut e = exp - fp.len() as i32;
    while e < 0 && digits.len() > 1 && digits.ends_with('0') {
        digits.pop();
        e += 1;
    }
    let d = digits.trim_start_matches('0');
    let d = if d.is_empty() { "0" } else { d };
    let mut out = if d == "0" {
        "0real".to_string()
    } else if e >= 0 {
        format!("{}{}real", d, "0".repeat(e as usize))
    } else {
        format!("({}real / 1{}real)", d, "0".repeat((-e) as usize))
    };
    if neg {
        out = format!("(-{})", out);
    }
    Some(out)
}

/// the names bound under a `&` in a pattern
fn ref_idents(p: &syn::Pat, out: &mut Vec<String>) {
    match p {
        syn::Pat::Reference(r) => {
            if let syn::Pat::Ident(i) = &*r.pat {
                out.push(i.ident.to_string());
            }
        }
        syn::Pat::Tuple(t) => t.elems.iter().for_each(|e| ref_idents(e, out)),
        syn::Pat::TupleStruct(t) => t.elems.iter().for_each(|e| ref_idents(e, out)),
        _ => {}
    }
}

pub fn lower_type_standalone(src: &str, ty: &syn::Type, tparams: &[String], w: &World) -> String {
    let mut l = Lower::new(src, w, None, tparams.to_vec());
    l.ty(ty)
}

struct Lower<'a> {
    src: &'a str,
    w: &'a World,
    spec: Option<&'a FnSpec>,
    tparams: Vec<String>,
    hashers: Vec<String>,
    pretail: String,
    siblings: (Vec<String>, String),
    nloop: usize,
    perm: Vec<usize>,       // loop of the contract for each loop of the source
    fps: Vec<(String, String)>,
    nclos: usize,
    keep_once: bool,
    items: bool, // iterate over rt_items()/rt_keys() of a hash container
    callees: Vec<String>,
    errs: Vec<String>,
    used_at: Vec<bool>,
    self_ty: String,
    assoc: Vec<(String, String)>,
    loop_end: Vec<Option<String>>,
    seen_let: std::collections::HashMap<String, usize>,
    raw: std::collections::BTreeSet<String>,
    locals: std::collections::HashMap<String, String>, // local -> type it is known to have
    variant: String, // contract variant; `rejects`: partial correctness, a failing assert does not return
    lifted: String, // closures verified as functions of their own
    fn_id: String,
    subs: Vec<(String, String)>,
    target: Option<String>,
    local_tys: std::collections::HashMap<String, String>, // local -> its declared type, lowered
    target_ty: Option<String>,
}

fn is_place(e: &syn::Expr) -> bool {
    matches!(
        e,
        syn::Expr::Path(_) | syn::Expr::Field(_) | syn::Expr::Index(_) | syn::Expr::Unary(_)
    )
}

fn is_word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}
fn word_sub(t: &str, a: &str, b: &str) -> String {
    let mut out = String::new();
    let mut rest = t;
    while let Some(i) = rest.find(a) {
        let before = rest[..i].chars().last().or(out.chars().last().filter(|_| i == 0));
        let after = rest[i + a.len()..].chars().next();
        out.push_str(&rest[..i]);
        let whole = !before.map(|c| is_word(c) || c == '.').unwrap_or(false) && !after.map(is_word).unwrap_or(false);
        out.push_str(if whole { b } else { a });
        rest = &rest[i + a.len()..];
    }
    out.push_str(rest);
    out
}
fn has_word(t: &str, a: &str) -> bool {
    word_sub(t, a, "\u{1}") != t
}

/// arithmetic on lengths, names and literals
fn len_expr(e: &syn::Expr) -> bool {
    use syn::Expr as E;
    match e {
        E::Lit(_) | E::Path(_) => true,
        E::Field(f) => len_expr(&f.base),
        E::Paren(p) => len_expr(&p.expr),
        E::Unary(u) => len_expr(&u.expr),
        E::Reference(r) => len_expr(&r.expr),
        E::Binary(b) => matches!(b.op, syn::BinOp::Add(_) | syn::BinOp::Mul(_)) && len_expr(&b.left) && len_expr(&b.right),
        E::MethodCall(m) => (m.method == "len" || m.method == "min" || m.method == "max" || m.method == "saturating_sub") && len_expr(&m.receiver) && m.args.iter().all(len_expr),
        _ => false,
    }
}

fn peel(e: &syn::Expr) -> &syn::Expr {
    match e {
        syn::Expr::Paren(p) => peel(&p.expr),
        syn::Expr::Group(p) => peel(&p.expr),
        _ => e,
    }
}

/// iteration source: number of items, item expression at index `__iK`
struct SrcIt {
    pre: String,  // bindings
    len: String,  // usize expr
    item: String, // expression in terms of index
}

impl<'a> Lower<'a> {
    fn new(src: &'a str, w: &'a World, spec: Option<&'a FnSpec>, tparams: Vec<String>) -> Self {
        let n = spec.map(|s| s.at.len()).unwrap_or(0);
        Lower {
            src,
            w,
            spec,
            tparams,
            hashers: vec![],
            pretail: String::new(),
            siblings: Default::default(),
            nloop: 0,
            perm: vec![],
            fps: vec![],
            nclos: 0,
            keep_once: false,
            items: false,
            callees: vec![],
            errs: vec![],
            used_at: vec![false; n],
            self_ty: String::new(),
            assoc: vec![],
            loop_end: vec![],
            seen_let: Default::default(),
            raw: Default::default(),
            locals: Default::default(),
            variant: String::new(),
            lifted: String::new(),
            fn_id: String::new(),
            subs: vec![],
            target: None,
            local_tys: Default::default(),
            target_ty: None,
        }
    }
    fn text(&self, r: Range<usize>) -> String {
        self.src[r].to_string()
    }
    fn err(&mut self, s: impl Into<String>) {
        self.errs.push(s.into());
    }
    fn splice(&self, outer: Range<usize>, mut parts: Vec<(Range<usize>, String)>) -> String {
        parts.sort_by_key(|p| p.0.start);
        let mut out = String::new();
        let mut pos = outer.start;
        for (r, t) in parts {
            out.push_str(&self.src[pos..r.start]);
            out.push_str(&t);
            pos = r.end;
        }
        out.push_str(&self.src[pos..outer.end]);
        out
    }
    fn at(&mut self, anchor: &str) -> String {
        let mut out = String::new();
        if let Some(sp) = self.spec {
            for (k, (a, t)) in sp.at.iter().enumerate() {
                if a == anchor {
                    self.used_at[k] = true;
                    out.push('\n');
                    out.push_str(t);
                }
            }
        }
        self.sub(out)
    }
    /// annotations that name a collection being filled, where the code fills it in the other way
    /// (a loop that pushes for a chain that collects, or the reverse)
    fn sub(&self, t: String) -> String {
        let mut t = t;
        for (a, b) in &self.subs {
            t = word_sub(&t, a, b);
        }
        t
    }

    // ---------- types
    fn ty(&mut self, t: &syn::Type) -> String {
        let n = norm(&self.src[rng(t.span())]);
        if let Some(x) = self.w.spec.tymap.get(&n) {
            return x.clone();
        }
        match t {
            syn::Type::Path(p) => self.path_ty(&p.path, rng(t.span()), p.qself.is_some()),
            syn::Type::Reference(r) => {
                let e = self.ty(&r.elem);
                self.splice(rng(t.span()), vec![(rng(r.elem.span()), e)])
            }
            syn::Type::Tuple(tt) => {
                let ps = tt.elems.iter().map(|e| (rng(e.span()), self.ty(e))).collect();
                self.splice(rng(t.span()), ps)
            }
            syn::Type::Slice(s) => {
                let e = self.ty(&s.elem);
                self.splice(rng(t.span()), vec![(rng(s.elem.span()), e)])
            }
            syn::Type::Array(s) => {
                let e = self.ty(&s.elem);
                self.splice(rng(t.span()), vec![(rng(s.elem.span()), e)])
            }
            syn::Type::Paren(s) => {
                let e = self.ty(&s.elem);
                self.splice(rng(t.span()), vec![(rng(s.elem.span()), e)])
            }
            syn::Type::Ptr(s) => {
                let e = self.ty(&s.elem);
                if e == "c_void" { "RtVoid".into() } else { format!("RtPtr<{}>", e) }
            }
            _ => self.text(rng(t.span())),
        }
    }
    fn path_ty(&mut self, p: &syn::Path, r: Range<usize>, qself: bool) -> String {
        if p.segments.len() == 2 && p.segments[0].ident == "Self" {
            let n = p.segments[1].ident.to_string();
            if let Some(a) = self.assoc.iter().find(|a| a.0 == n) {
                return a.1.clone();
            }
        }
        if !qself && p.segments.len() >= 1 {
            let last = p.segments.last().unwrap();
            let id = last.ident.to_string();
            if id == "Result" && p.segments.len() >= 2 && p.segments[p.segments.len() - 2].ident == "io" {
                if let syn::PathArguments::AngleBracketed(a) = &last.arguments {
                    if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                        return format!("Result<{}, IoError>", self.ty(t));
                    }
                }
            }
            if p.segments.len() == 1 {
                if id == "f64" {
                    return "F64".into();
                }
                if self.hashers.contains(&id) {
                    return "RtHasher".into();
                }
                if self.tparams.contains(&id) {
                    return "F64".into();
                }
                if let Some(x) = self.w.spec.tymap.get(&id) {
                    return x.clone();
                }
            }
            if self.w.spec.mono.contains(&id) {
                // keep lifetime arguments only
                let mut lts = vec![];
                if let syn::PathArguments::AngleBracketed(a) = &last.arguments {
                    for x in &a.args {
                        if let syn::GenericArgument::Lifetime(l) = x {
                            lts.push(l.to_string());
                        }
                    }
                }
                return if lts.is_empty() { id } else { format!("{}<{}>", id, lts.join(", ")) };
            }
        }
        let mut parts = vec![];
        for s in &p.segments {
            if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                for x in &a.args {
                    match x {
                        syn::GenericArgument::Type(t) => parts.push((rng(t.span()), self.ty(t))),
                        syn::GenericArgument::AssocType(t) => {
                            let s = self.ty(&t.ty);
                            parts.push((rng(t.ty.span()), s))
                        }
                        _ => {}
                    }
                }
            }
        }
        self.splice(r, parts)
    }

    // ---------- patterns
    fn pat(&mut self, p: &syn::Pat) -> String {
        match p {
            syn::Pat::Type(t) => {
                let a = self.pat(&t.pat);
                let b = self.ty(&t.ty);
                self.splice(
                    rng(p.span()),
                    vec![(rng(t.pat.span()), a), (rng(t.ty.span()), b)],
                )
            }
            syn::Pat::Reference(r) => self.pat(&r.pat),
            syn::Pat::TupleStruct(t) => {
                let parts = t.elems.iter().map(|e| (rng(e.span()), self.pat(e))).collect();
                self.splice(rng(p.span()), parts)
            }
            syn::Pat::Tuple(t) => {
                let parts = t.elems.iter().map(|e| (rng(e.span()), self.pat(e))).collect();
                self.splice(rng(p.span()), parts)
            }
            syn::Pat::Path(q) if self.w.iconsts.contains_key(&q.path.segments.last().unwrap().ident.to_string()) => {
                self.w.iconsts[&q.path.segments.last().unwrap().ident.to_string()].clone()
            }
            _ => self.text(rng(p.span())),
        }
    }

    // ---------- blocks
    fn block(&mut self, b: &syn::Block) -> String {
        self.block_with(b, "", "")
    }
    fn block_with(&mut self, b: &syn::Block, begin: &str, end: &str) -> String {
        let mut out = String::from("{");
        out.push_str(begin);
        let pretail = std::mem::take(&mut self.pretail);
        let n = b.stmts.len();
        let mut pos = rng(b.span()).start + 1;
        for (i, s) in b.stmts.iter().enumerate() {
            let r = rng(s.span());
            out.push_str(&self.src[pos..r.start]);
            pos = r.end;
            let pre = self.before_stmt(s);
            out.push_str(&pre);
            let mut t = self.stmt(s);
            let is_tail = i + 1 == n && matches!(s, syn::Stmt::Expr(_, None));
            if is_tail {
                out.push_str(&pretail);
            }
            if is_tail && !end.is_empty() {
                t.push_str(";");
                t.push_str(end);
            }
            out.push_str(&t);
            if let syn::Stmt::Local(l) = s {
                let nm = local_name(&l.pat);
                if let Some(nm) = nm {
                    let c = self.seen_let.entry(nm.clone()).or_insert(0);
                    *c += 1;
                    let c = *c;
                    let a = if c == 1 { self.at(&format!("after let {}", nm)) } else { String::new() };
                    out.push_str(&a);
                    let a = self.at(&format!("after let {}#{}", nm, c));
                    out.push_str(&a);
                }
            } else {
                let a = self.after_stmt(s);
                out.push_str(&a);
            }
        }
        let has_tail = matches!(b.stmts.last(), Some(syn::Stmt::Expr(_, None)));
        if !(has_tail && !end.is_empty()) {
            out.push_str(&self.src[pos..rng(b.span()).end - 1]);
            if !has_tail {
                out.push_str(end);
            }
        }
        out.push('}');
        out
    }
    fn before_stmt(&mut self, s: &syn::Stmt) -> String {
        let t = norm(&self.src[rng(s.span())]);
        let mut out = String::new();
        if let Some(sp) = self.spec {
            for (k, (a, tx)) in sp.at.iter().enumerate() {
                if let Some(sn) = a.strip_prefix("before ") {
                    if self.used_at[k] {
                        continue;
                    }
                    // has: anywhere in the statement
                    let (sn, has) = match sn.strip_prefix("has ") {
                        Some(x) => (x, true),
                        None => (sn, false),
                    };
                    let sn = norm(sn.trim_matches('"'));
                    if t.starts_with(&sn) || has && t.contains(&sn) {
                        self.used_at[k] = true;
                        out.push('\n');
                        out.push_str(tx);
                    }
                }
            }
        }
        out
    }
    fn after_stmt(&mut self, s: &syn::Stmt) -> String {
        let t = norm(&self.src[rng(s.span())]);
        let mut out = String::new();
        if let Some(sp) = self.spec {
            for (k, (a, tx)) in sp.at.iter().enumerate() {
                if let Some(sn) = a.strip_prefix("after \"").or(a.strip_prefix("after has \"")) {
                    if self.used_at[k] {
                        continue;
                    }
                    let has = a.starts_with("after has");
                    let sn = norm(sn.trim_matches('"'));
                    if t.starts_with(&sn) || has && t.contains(&sn) {
                        self.used_at[k] = true;
                        out.push('\n');
                        out.push_str(tx);
                    }
                }
            }
        }
        out
    }
    fn stmt(&mut self, s: &syn::Stmt) -> String {
        let r = rng(s.span());
        match s {
            syn::Stmt::Local(l) => {
                self.note_local(l);
                let mut parts = vec![(rng(l.pat.span()), self.pat(&l.pat))];
                if let Some(i) = &l.init {
                    self.target(local_name(&l.pat), &i.expr, Some(&l.pat));
                    parts.push((rng(i.expr.span()), self.ex(&i.expr)));
                    self.target = None;
                    self.target_ty = None;
                    if let Some((_, d)) = &i.diverge {
                        parts.push((rng(d.span()), self.ex(d)));
                    }
                }
                self.splice(r, parts)
            }
            syn::Stmt::Expr(e, semi) => {
                let t = self.ex(e);
                if semi.is_some() {
                    format!("{};", t)
                } else {
                    t
                }
            }
            syn::Stmt::Macro(m) => {
                let t = self.mac(&m.mac, r);
                if m.semi_token.is_some() {
                    format!("{};", t)
                } else {
                    t
                }
            }
            syn::Stmt::Item(_) => {
                self.err("nested item");
                String::new()
            }
        }
    }

    /// a raw pointer: a parameter of such a type, or moved from one
    fn is_raw(&self, e: &syn::Expr) -> bool {
        match peel(e) {
            syn::Expr::Path(p) => p.path.get_ident().map(|i| self.raw.contains(&i.to_string())).unwrap_or(false),
            syn::Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "add" | "offset" | "wrapping_add") && self.is_raw(&m.receiver),
            _ => false,
        }
    }
    /// `let x: T = ..` and `let x = T::f(..)`
    /// every function of this name in the crate returns a map
    fn returns_map(&self, name: &str) -> bool {
        let mut any = false;
        for f in self.w.fns.iter().filter(|f| f.sig.ident == name) {
            any = true;
            match &f.sig.output {
                syn::ReturnType::Type(_, t) if norm(&f.src[rng(t.span())]).starts_with("HashMap") => {}
                _ => return false,
            }
        }
        any
    }
    fn is_map(&self, e: &syn::Expr) -> bool {
        match peel(e) {
            syn::Expr::Path(p) => match p.path.get_ident() {
                Some(i) => self.locals.get(&i.to_string()).map(|t| t.trim_start_matches('&').trim().starts_with("HashMap")).unwrap_or(false),
                None => false,
            },
            syn::Expr::MethodCall(m) => self.returns_map(&m.method.to_string()),
            _ => false,
        }
    }
    fn note_local(&mut self, l: &syn::Local) {
        if let (syn::Pat::Ident(i), Some(x)) = (&l.pat, &l.init) {
            if self.is_raw(&x.expr) {
                self.raw.insert(i.ident.to_string());
            }
        }
        if let (syn::Pat::Type(t), Some(n)) = (&l.pat, local_name(&l.pat)) {
            let ty = self.ty(&t.ty);
            self.local_tys.insert(n, ty);
        }
        let (p, t) = match &l.pat {
            syn::Pat::Type(t) => (&*t.pat, Some(norm(&self.src[rng(t.ty.span())]))),
            p => (p, None),
        };
        let name = match p {
            syn::Pat::Ident(i) => i.ident.to_string(),
            _ => return,
        };
        let t = t.or_else(|| match l.init.as_ref().map(|i| peel(&i.expr)) {
            Some(syn::Expr::MethodCall(m)) if self.returns_map(&m.method.to_string()) => Some("HashMap".into()),
            Some(syn::Expr::Call(c)) => match peel(&c.func) {
                syn::Expr::Path(p) if p.path.segments.len() >= 2 => {
                    Some(p.path.segments[p.path.segments.len() - 2].ident.to_string())
                }
                _ => None,
            },
            _ => None,
        });
        match t {
            Some(t) => self.locals.insert(name, t),
            None => self.locals.remove(&name),
        };
    }

    // ---------- iteration sources
    fn source(&mut self, e: &syn::Expr, k: usize, sub: &mut usize) -> Option<SrcIt> {
        match peel(e) {
            syn::Expr::MethodCall(m)
                if self.items && matches!(m.method.to_string().as_str(), "iter" | "keys" | "values" | "into_iter") && m.args.is_empty() =>
            {
                let j = *sub;
                *sub += 1;
                let nm = if j == 0 { format!("__s{}", k) } else { format!("__s{}_{}", k, j) };
                let bt = self.ex(peel(&m.receiver));
                let f = match m.method.to_string().as_str() {
                    "keys" => "rt_keys",
                    "values" => "rt_values",
                    "into_iter" => "rt_owned",
                    _ => "rt_items",
                };
                let (own, bt) = if is_place(peel(&m.receiver)) { (String::new(), bt) } else { (format!("let __b{} = {};", &nm[2..], bt), format!("__b{}", &nm[2..])) };
                Some(SrcIt {
                    pre: format!("{}let {} = {}.{}();", own, nm, bt, f),
                    len: format!("{}.len()", nm),
                    item: if f == "rt_owned" { format!("rt_take(&{}, __i{})", nm, k) } else { format!("{}[__i{}]", nm, k) },
                })
            }
            syn::Expr::Reference(r) if self.items => {
                *sub += 1;
                let bt = self.ex(peel(&r.expr));
                Some(SrcIt {
                    pre: format!("let __s{} = {}.rt_items();", k, bt),
                    len: format!("__s{}.len()", k),
                    item: format!("__s{}[__i{}]", k, k),
                })
            }
            syn::Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match (name.as_str(), m.args.len()) {
                    ("iter", 0) | ("iter_mut", 0) | ("as_slice_iter", 0) => {
                        let base = peel(&m.receiver);
                        let j = *sub;
                        *sub += 1;
                        let nm = if j == 0 { format!("__s{}", k) } else { format!("__s{}_{}", k, j) };
                        let mu = name == "iter_mut";
                        let bt = self.ex(base);
                        let pre = if mu {
                            // the body holds the element's borrow only
                            return Some(SrcIt {
                                pre: String::new(),
                                len: format!("({}).len()", bt),
                                item: format!("&mut {}[__i{}]", bt, k),
                            });
                        } else if is_place(base) {
                            format!("let {} = &{};", nm, bt)
                        } else {
                            format!("let {} = {};", nm, bt)
                        };
                        Some(SrcIt {
                            pre,
                            len: format!("{}.len()", nm),
                            item: format!("&{}[__i{}]", nm, k),
                        })
                    }
                    // a vector consumed: each element is taken out once
                    ("into_iter", 0) => {
                        let base = peel(&m.receiver);
                        let j = *sub;
                        *sub += 1;
                        let nm = if j == 0 { format!("__s{}", k) } else { format!("__s{}_{}", k, j) };
                        let bt = self.ex(base);
                        let amp = if is_place(base) { "&" } else { "" };
                        Some(SrcIt {
                            pre: format!("let {} = {}{};", nm, amp, bt),
                            len: format!("{}.len()", nm),
                            item: format!("rt_take(&{}, __i{})", nm, k),
                        })
                    }
                    ("windows", 1) => {
                        let a = norm(&self.src[rng(m.args[0].span())]);
                        if a != "2" {
                            return None;
                        }
                        let base = peel(&m.receiver);
                        *sub += 1;
                        let bt = self.ex(base);
                        let amp = if is_place(base) { "&" } else { "" };
                        Some(SrcIt {
                            pre: format!("let __s{} = {}{};", k, amp, bt),
                            len: format!("(if __s{}.len() >= 1 {{ __s{}.len() - 1 }} else {{ 0 }})", k, k),
                            item: format!("vstd::slice::slice_subrange(__s{}, __i{}, __i{} + 2)", k, k, k),
                        })
                    }
                    ("enumerate", 0) => {
                        let s = self.source(&m.receiver, k, sub)?;
                        Some(SrcIt {
                            pre: s.pre,
                            len: s.len,
                            item: format!("(__i{}, {})", k, s.item),
                        })
                    }
                    ("zip", 1) => {
                        let s1 = self.source(&m.receiver, k, sub)?;
                        let s2 = self.source(&m.args[0], k, sub)?;
                        Some(SrcIt {
                            pre: format!("{} {}", s1.pre, s2.pre),
                            len: format!("rt_min({}, {})", s1.len, s2.len),
                            item: format!("({}, {})", s1.item, s2.item),
                        })
                    }
                    _ if self.items => self.by_value(e, k, sub),
                    _ => None,
                }
            }
            syn::Expr::Reference(r) => {
                *sub += 1;
                let base = peel(&r.expr);
                let bt = self.ex(base);
                let pre = if is_place(base) {
                    format!("let __s{} = &{};", k, bt)
                } else {
                    format!("let __s{} = {};", k, bt)
                };
                Some(SrcIt {
                    pre,
                    len: format!("__s{}.len()", k),
                    item: format!("&__s{}[__i{}]", k, k),
                })
            }
            syn::Expr::Path(_) => {
                // `for v in vars` with vars: &[T]
                let bt = self.ex(e);
                *sub += 1;
                Some(SrcIt {
                    pre: format!("let __s{} = {};", k, bt),
                    len: format!("__s{}.len()", k),
                    item: format!("&__s{}[__i{}]", k, k),
                })
            }
            _ if self.items => self.by_value(e, k, sub),
            _ => None,
        }
    }
    /// a Vec of copyable items, iterated by value
    fn by_value(&mut self, e: &syn::Expr, k: usize, sub: &mut usize) -> Option<SrcIt> {
        *sub += 1;
        let bt = self.ex(e);
        Some(SrcIt {
            pre: format!("let __s{} = {};", k, bt),
            len: format!("__s{}.len()", k),
            item: format!("__s{}[__i{}]", k, k),
        })
    }

    /// `broadcast use` lines at the start of the function hold in its loop bodies too
    fn bcast(&mut self) -> String {
        let t = match self.spec.and_then(|s| s.at.iter().find(|a| a.0 == "begin")) {
            Some(t) => format!("\n{}", t.1),
            None => return String::new(),
        };
        t.lines().filter(|l| l.trim_start().starts_with("broadcast use")).map(|l| format!("\n{}\n", l)).collect()
    }

    fn loop_spec(&mut self, k: usize) -> (String, String) {
        match self.spec.and_then(|s| s.loops.get(&k)) {
            Some(l) => (l.mode.clone(), self.sub(l.inv.clone())),
            None => (String::new(), String::new()),
        }
    }
    /// the contract's loop k is written for `X.push(..)` in a loop and the code collects into X
    fn collects(&mut self, k: usize) {
        if let Some(x) = self.target.take() {
            let acc = format!("__acc{}", k);
            let mine = match self.spec.and_then(|s| s.loops.get(&k)) {
                Some(l) => has_word(&l.inv, &x) && !has_word(&l.inv, &acc),
                None => false,
            };
            if mine {
                self.subs.push((x, acc));
            }
        }
    }
    /// the contract's loop k is written for a chain that collects and the code fills X in a loop
    fn fills(&mut self, k: usize, body: &syn::Block) {
        let acc = format!("__acc{}", k);
        match self.spec.and_then(|s| s.loops.get(&k)) {
            Some(l) if has_word(&l.inv, &acc) => {}
            _ => return,
        }
        struct V(std::collections::BTreeSet<String>);
        impl<'a> syn::visit::Visit<'a> for V {
            fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
                if matches!(m.method.to_string().as_str(), "push" | "insert") {
                    if let syn::Expr::Path(p) = peel(&m.receiver) {
                        if let Some(i) = p.path.get_ident() {
                            self.0.insert(i.to_string());
                        }
                    }
                }
                syn::visit::visit_expr_method_call(self, m);
            }
            fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
                if matches!(b.op, syn::BinOp::AddAssign(_)) {
                    if let syn::Expr::Path(p) = peel(&b.left) {
                        if let Some(i) = p.path.get_ident() {
                            self.0.insert(i.to_string());
                        }
                    }
                }
                syn::visit::visit_expr_binary(self, b);
            }
        }
        let mut v = V(Default::default());
        syn::visit::Visit::visit_block(&mut v, body);
        if v.0.len() == 1 {
            self.subs.push((acc, v.0.into_iter().next().unwrap()));
        }
    }

    /// the variable a collecting chain is assigned to, and what it collects into
    fn target(&mut self, name: Option<String>, e: &syn::Expr, pat: Option<&syn::Pat>) {
        self.target = None;
        self.target_ty = None;
        if let syn::Expr::MethodCall(m) = peel(e) {
            if m.method == "collect" {
                self.target = name;
                let t = match pat {
                    Some(syn::Pat::Type(t)) => Some(self.ty(&t.ty)),
                    Some(_) => None,
                    None => self.target.as_ref().and_then(|n| self.local_tys.get(n).cloned()),
                };
                if let Some(t) = t {
                    let full = if has_word(&t, "_") { "" } else { &t };
                    for (a, b) in [("HashMap", "hashmap"), ("HashSet", "hashset"), ("Vec", "vec")] {
                        if t.starts_with(a) {
                            self.target_ty = Some(format!("{} {}", b, full).trim().to_string());
                        }
                    }
                }
            }
        }
    }

    fn slot(&self) -> usize {
        self.perm.get(self.nloop).copied().unwrap_or(self.nloop)
    }
    fn took(&mut self, head: String, body: String) {
        self.fps.push((short(&head), short(&body)));
        self.nloop += 1;
    }
    fn for_loop(&mut self, f: &syn::ExprForLoop) -> String {
        let k = self.slot();
        self.took(norm(&self.text(rng(f.expr.span()))), norm(&self.text(rng(f.span()))));
        self.fills(k, &f.body);
        let (mode, inv) = self.loop_spec(k);
        let mode = if self.subs.iter().any(|s| s.0 == format!("__acc{}", k)) && mode.starts_with("items") { "items".to_string() } else { mode };
        let before = self.at(&format!("loop {} before", k));
        let after = self.at(&format!("loop {} after", k));
        let begin = format!("{}{}", self.bcast(), self.at(&format!("loop {} begin", k)));
        let end = self.at(&format!("loop {} end", k));
        let label = f.label.as_ref().map(|l| format!("{} ", self.text(rng(l.span())))).unwrap_or_default();
        let it = peel(&f.expr);
        let core;
        // Verus has no `continue` in `for`: such loops become `while`
        let cont = has_continue(&f.body);
        self.loop_end.push(if cont { Some(end.clone()) } else { None });
        if cont && matches!(it, syn::Expr::Range(r) if r.start.is_some() && r.end.is_some() && matches!(r.limits, syn::RangeLimits::HalfOpen(_))) {
            let r = match it {
                syn::Expr::Range(r) => r,
                _ => unreachable!(),
            };
            let pat = self.pat(&f.pat);
            let lo = self.ex(r.start.as_ref().unwrap());
            let hi = self.ex(r.end.as_ref().unwrap());
            let body = self.block_with(&f.body, &begin, &end);
            // the limits are known in the loop where the spec says what they are, or from the context
            let iso = if inv.contains("__HI(") { "" } else { "#[verifier::loop_isolation(false)] " };
            let inv = while_inv(&inv, k, &pat).replace("__HI(", &format!("(__hi{} == ", k)).replace("__LO(", &format!("(__lo{} == ", k));
            core = format!(
                "let __hi{k} = {hi}; let mut __n{k} = {lo}; let ghost __lo{k} = __n{k} as int; {iso}{label}while __n{k} < __hi{k}\n{inv} {{ let {pat} = __n{k}; __n{k} = __n{k} + 1; {body} }}"
            );
        } else if let syn::Expr::Range(_) = it {
            let inv = drop_calls(drop_calls(inv.clone(), "__HI("), "__LO(");
            let pat = self.pat(&f.pat);
            let e = self.ex(it);
            let body = self.block_with(&f.body, &begin, &end);
            core = format!("{}for {} in __it{}: {}\n{} {}", label, pat, k, e, inv, body);
        } else if mode == "native" {
            // temporaries are hoisted: Verus' `for` desugaring drops them
            let pat = self.pat(&f.pat);
            let (pre, e) = self.hoist(it, k);
            let body = self.block_with(&f.body, &begin, &end);
            core = format!("{} {}for {} in __it{}: {}\n{} {}", pre, label, pat, k, e, inv, body);
        } else if mode == "pair" {
            // native iteration binding the item first, then the pattern
            let pat = self.pat(&f.pat);
            let (pre, e) = self.hoist(it, k);
            let body = self.block_with(&f.body, &format!(" let {} = __x{}; {}", pat, k, begin), &end);
            core = format!("{} {}for __x{} in __it{}: {}\n{} {}", pre, label, k, k, e, inv, body);
        } else if mode == "next" {
            let pat = self.pat(&f.pat);
            let e = self.ex(it);
            let mut refs = Vec::new();
            ref_idents(&f.pat, &mut refs);
            let derefs: String = refs.iter().map(|r| format!(" let {r} = *{r};")).collect();
            let body = self.block_with(&f.body, &format!("{begin}{derefs}"), &end);
            core = format!(
                "let mut __n{k} = {e}; {label}loop\n{inv} {{ match __n{k}.next() {{ Some({pat}) => {body}, None => {{ break; }} }} }}"
            );
        } else {
            let pat = self.pat(&f.pat);
            let mut sub = 0;
            self.items = mode == "items" || mode == "refs";
            let mut src = self.source(it, k, &mut sub);
            self.items = false;
            if let (Some(s), "refs") = (&mut src, mode.as_str()) {
                s.item = format!("&{}", s.item);
            }
            match src {
                Some(s) => {
                    let body = self.block_with(&f.body, &begin, &end);
                    core = if cont {
                        let inv = while_inv(&inv, k, &format!("__i{}", k)).replacen("invariant ", &format!("invariant __hi{k} == __len{k}, __lo{k} == 0, "), 1);
                        format!(
                            "{} let __hi{k}: usize = {}; let __len{k} = __hi{k}; let mut __n{k}: usize = 0; let ghost __lo{k}: int = 0; {label}while __n{k} < __hi{k}\n{inv} {{ let __i{k} = __n{k}; __n{k} = __n{k} + 1; {} {body} }}",
                            s.pre,
                            s.len,
                            split_bind(&f.pat, &pat, &s.item)
                        )
                    } else { format!(
                        "{} let __len{k}: usize = {}; {label}for __i{k} in __it{k}: 0..__len{k}\n{inv} {{ {} {body} }}",
                        s.pre,
                        s.len,
                        split_bind(&f.pat, &pat, &s.item)
                    ) };
                }
                None => {
                    self.err(format!("loop {}: iteration source not supported", k));
                    core = String::new();
                }
            }
        }
        self.loop_end.pop();
        format!("{{ {} {} {} }}", before, core, after)
    }
    fn hoist(&mut self, it: &syn::Expr, k: usize) -> (String, String) {
        match it {
            syn::Expr::MethodCall(m)
                if (m.method == "iter" || m.method == "into_iter" || m.method == "keys") && m.args.is_empty() =>
            {
                let base = peel(&m.receiver);
                let bt = self.ex(base);
                if is_place(base) {
                    (String::new(), format!("{}.{}()", bt, m.method))
                } else {
                    (format!("let __b{} = {};", k, bt), format!("__b{}.{}()", k, m.method))
                }
            }
            syn::Expr::Reference(r) => {
                let base = peel(&r.expr);
                let bt = self.ex(base);
                if is_place(base) {
                    (String::new(), format!("{}.iter()", bt))
                } else {
                    (format!("let __b{} = {};", k, bt), format!("__b{}.iter()", k))
                }
            }
            e => {
                let t = self.ex(e);
                (String::new(), t)
            }
        }
    }

    /// X.iter()...map(|p| body)...collect()/sum() as an explicit loop
    fn chain(&mut self, e: &syn::Expr) -> Option<String> {
        let m = match e {
            syn::Expr::MethodCall(m) => m,
            _ => return None,
        };
        let fin = m.method.to_string();
        if !matches!(fin.as_str(), "collect" | "sum") || !m.args.is_empty() {
            return None;
        }
        self.chain_of(e, &m.receiver, &fin)
    }
    fn chain_of(&mut self, e: &syn::Expr, recv: &syn::Expr, fin: &str) -> Option<String> {
        let k = self.slot();
        let nsubs = self.subs.len();
        self.collects(k);
        let tfin = self.target_ty.take();
        let (mode, inv) = self.loop_spec(k);
        let fp = norm(&self.text(rng(e.span())));
        if mode == "keep" {
            self.took(norm(&self.text(rng(recv.span()))), fp);
            self.keep_once = true;
            return Some(self.generic(e));
        }
        // adaptor stages from the inside out
        let mut stages: Vec<&syn::ExprMethodCall> = vec![];
        let mut cur = peel(recv);
        let base = loop {
            match cur {
                syn::Expr::MethodCall(c)
                    if matches!(c.method.to_string().as_str(), "map" | "filter" | "enumerate" | "zip" | "cloned" | "copied") =>
                {
                    stages.push(c);
                    cur = peel(&c.receiver);
                }
                _ => break cur,
            }
        };
        stages.reverse();
        let is_src = match base {
            syn::Expr::MethodCall(c) => {
                matches!(c.method.to_string().as_str(), "iter" | "keys" | "into_iter") && c.args.is_empty()
            }
            _ => false,
        };
        if !is_src {
            return None;
        }
        self.took(norm(&self.text(rng(recv.span()))), fp);
        let native = mode.starts_with("native");
        let mode = mode.trim_start_matches("native").trim().to_string();
        let items = mode.starts_with("items");
        let mut mode = mode.trim_start_matches("items").trim().to_string();
        if mode.is_empty() && matches!(fin, "hashset" | "hashmap") {
            mode = fin.to_string();
        }
        if let (true, Some(t)) = (mode.is_empty(), tfin) {
            mode = t;
        }
        let before = self.at(&format!("loop {} before", k));
        let after = self.at(&format!("loop {} after", k));
        let begin = format!("{}{}", self.bcast(), self.at(&format!("loop {} begin", k)));
        let end = self.at(&format!("loop {} end", k));
        let mut body = String::new();
        let mut close = 0;
        let head;
        let mut cnt = String::new();
        if native {
            let (pre, ee) = self.hoist(base, k);
            head = (pre, format!("for __x{k} in __it{k}: {ee}\n{inv}"));
            body.push_str(&format!("let __v = __x{k};"));
        } else {
            let mut sub = 0;
            self.items = items;
            let src = self.source(base, k, &mut sub);
            self.items = false;
            let s = match src {
                Some(s) => s,
                None => {
                    self.err(format!("chain {}: source not supported", k));
                    return Some(String::new());
                }
            };
            head = (
                format!("{} let __len{k}: usize = {};", s.pre, s.len),
                format!("for __i{k} in __it{k}: 0..__len{k}\n{inv}"),
            );
            body.push_str(&format!("let __v = {};", s.item));
        }
        let mut filtered = false;
        for st in stages {
            match st.method.to_string().as_str() {
                "enumerate" => {
                    if filtered {
                        self.err("enumerate after filter");
                    }
                    if native {
                        cnt = format!("let mut __c{k}: usize = 0;");
                        body.push_str(&format!("let __v = (__c{k}, __v); __c{k} = __c{k} + 1;"));
                    } else {
                        body.push_str(&format!("let __v = (__i{k}, __v);"));
                    }
                }
                "cloned" | "copied" => body.push_str("let __v = (*__v).clone();"),
                "map" | "filter" => {
                    let c = match st.args.first().map(peel) {
                        Some(syn::Expr::Closure(c)) if c.inputs.len() == 1 => c,
                        _ => {
                            self.err("chain stage is not a closure");
                            return Some(String::new());
                        }
                    };
                    let isref = matches!(&c.inputs[0], syn::Pat::Reference(_));
                    let p = self.pat(&c.inputs[0]);
                    let b = self.ex(&c.body);
                    if st.method == "map" {
                        if isref {
                            body.push_str(&format!("let __v = {{ let {} = *__v; {} }};", p, b));
                        } else {
                            body.push_str(&format!("let __v = {{ let {} = __v; {} }};", p, b));
                        }
                    } else {
                        filtered = true;
                        if isref {
                            body.push_str(&format!("if ({{ let {} = __v; {} }}) {{", p, b));
                        } else {
                            body.push_str(&format!("if ({{ let {} = &__v; {} }}) {{", p, b));
                        }
                        close += 1;
                    }
                }
                _ => {
                    self.err("chain stage");
                }
            }
        }
        let (init, push) = if fin == "sum" {
            let z = mode.strip_prefix("sum").unwrap_or(" 0usize").trim().to_string();
            (
                format!("let mut __acc{k} = {z};"),
                format!("__acc{k} = __acc{k} + __v;"),
            )
        } else if let Some(t) = mode.strip_prefix("hashmap") {
            (
                format!("let mut __acc{k}{} = HashMap::new();", ann(t)),
                format!("__acc{k}.insert(__v.0, __v.1);"),
            )
        } else if let Some(t) = mode.strip_prefix("hashset") {
            (
                format!("let mut __acc{k}{} = HashSet::new();", ann(t)),
                format!("__acc{k}.insert(__v);"),
            )
        } else {
            let t = mode.strip_prefix("vec").unwrap_or("");
            (
                format!("let mut __acc{k}{} = Vec::new();", ann(t)),
                format!("__acc{k}.push(__v);"),
            )
        };
        self.subs.truncate(nsubs);
        Some(format!(
            "{{ {} {} {} {} {} {{ {} {} {} {} {} }} {} __acc{} }}",
            head.0,
            cnt,
            init,
            before,
            head.1,
            begin,
            body,
            push,
            "}".repeat(close),
            end,
            after,
            k
        ))
    }

    // ---------- macros
    fn mac(&mut self, m: &syn::Macro, r: Range<usize>) -> String {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let args = || {
            m.parse_body_with(
                syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated,
            )
        };
        match name.as_str() {
            "assert" | "debug_assert" => {
                let a = args();
                match a {
                    Ok(a) if a.len() >= 1 => {
                        let t = self.ex(&a[0]);
                        format!("{}({})", if self.variant == "rejects" { "rt_check" } else { "rt_assert" }, t)
                    }
                    _ => {
                        self.err("assert! args");
                        String::new()
                    }
                }
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" => {
                let a = args();
                match a {
                    Ok(a) if a.len() >= 2 => {
                        let x = self.ex(&a[0]);
                        let y = self.ex(&a[1]);
                        let op = if name == "assert_ne" { "!=" } else { "==" };
                        format!("{}({} {} {})", if self.variant == "rejects" { "rt_check" } else { "rt_assert" }, x, op, y)
                    }
                    _ => {
                        self.err("assert_eq! args");
                        String::new()
                    }
                }
            }
            "matches" => {
                struct M(syn::Expr, syn::Pat, Option<syn::Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let a = i.parse()?;
                        i.parse::<syn::Token![,]>()?;
                        let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(syn::Token![if]) {
                            i.parse::<syn::Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        i.parse::<Option<syn::Token![,]>>()?;
                        Ok(M(a, p, g))
                    }
                }
                match m.parse_body::<M>() {
                    Ok(x) => {
                        let a = self.ex(&x.0);
                        let p = self.pat(&x.1);
                        let g = match &x.2 {
                            Some(g) => format!(" if {}", self.ex(g)),
                            None => String::new(),
                        };
                        format!("(match {} {{ {}{} => true, _ => false }})", a, p, g)
                    }
                    Err(_) => {
                        self.err("matches!");
                        String::new()
                    }
                }
            }
            // an unspecified string
            "format" if self.w.spec.texts.is_empty() => "rt_format()".into(),
            "panic" | "unreachable" | "unimplemented" | "todo" => if self.variant == "rejects" { "rt_diverge()".into() } else { "rt_panic()".into() },
            "vec" => {
                let n = rng(m.tokens.span());
                if m.tokens.is_empty() {
                    return "Vec::new()".into();
                }
                if let Ok(a) = args() {
                    let parts: Vec<_> = a.iter().map(|e| (rng(e.span()), self.ex(e))).collect();
                    if parts.iter().any(|p| p.1.contains("Ghost(")) {
                        let lets: Vec<String> = parts.iter().enumerate().map(|(i, p)| format!("let __e{} = {};", i, p.1)).collect();
                        let es: Vec<String> = (0..parts.len()).map(|i| format!("__e{}", i)).collect();
                        return format!("{{ {} vec![{}] }}", lets.join(" "), es.join(", "));
                    }
                    return format!("vec![{}]", self.splice(n, parts));
                }
                // vec![x; n]
                struct Rep(syn::Expr, syn::Expr);
                impl syn::parse::Parse for Rep {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let a = i.parse()?;
                        i.parse::<syn::Token![;]>()?;
                        Ok(Rep(a, i.parse()?))
                    }
                }
                match m.parse_body::<Rep>() {
                    Ok(x) => {
                        let a = self.ex(&x.0);
                        let b = self.ex(&x.1);
                        if a.contains("Ghost(") {
                            // the macro's text is not expanded as specification syntax
                            format!("{{ let __e = {}; vec![__e; {}] }}", a, b)
                        } else {
                            format!("vec![{}; {}]", a, b)
                        }
                    }
                    Err(_) => {
                        self.err("vec!");
                        String::new()
                    }
                }
            }
            "write" | "writeln" | "format" | "println" | "print" | "eprintln" => self.fmt_mac(&name, m),
            _ => {
                self.err(format!("macro {}!", name));
                self.text(r)
            }
        }
    }

    /// write!(w, "lit {} lit {:e}", a, b): a sequence of pieces, in order.
    fn fmt_mac(&mut self, name: &str, m: &syn::Macro) -> String {
        let a = match m.parse_body_with(
            syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated,
        ) {
            Ok(a) => a,
            Err(_) => {
                self.err("format macro args");
                return String::new();
            }
        };
        let mut it = a.iter();
        let target = if name.starts_with("write") {
            match it.next() {
                Some(e) => Some(self.ex(e)),
                None => return String::new(),
            }
        } else {
            None
        };
        let lit = match it.next() {
            Some(syn::Expr::Lit(l)) => match &l.lit {
                syn::Lit::Str(s) => s.value(),
                _ => {
                    self.err("format string");
                    return String::new();
                }
            },
            _ => {
                self.err("format string");
                return String::new();
            }
        };
        let rest: Vec<String> = it.map(|e| self.ex(e)).collect();
        let mut pieces: Vec<String> = vec![];
        let mut cur = String::new();
        let cs: Vec<char> = lit.chars().collect();
        let mut i = 0;
        let mut na = 0;
        while i < cs.len() {
            if cs[i] == '{' && i + 1 < cs.len() && cs[i + 1] == '{' {
                cur.push('{');
                i += 2;
            } else if cs[i] == '}' && i + 1 < cs.len() && cs[i + 1] == '}' {
                cur.push('}');
                i += 2;
            } else if cs[i] == '{' {
                let mut j = i + 1;
                let mut f = String::new();
                while j < cs.len() && cs[j] != '}' {
                    f.push(cs[j]);
                    j += 1;
                }
                pieces.push(self.text_lit(&cur));
                cur.clear();
                let (argname, fm) = match f.find(':') {
                    Some(k) => (f[..k].trim().to_string(), f[k..].to_string()),
                    None => (f.trim().to_string(), String::new()),
                };
                let arg = if argname.is_empty() {
                    let r = rest.get(na).cloned();
                    na += 1;
                    r
                } else if argname.parse::<usize>().is_ok() {
                    rest.get(argname.parse::<usize>().unwrap()).cloned()
                } else {
                    Some(argname)
                };
                match arg {
                    Some(x) => pieces.push(format!(".arg(&({}), Ghost({}))", x, fmt_prec(&fm))),
                    None => self.err("format arg"),
                }
                i = j + 1;
            } else {
                cur.push(cs[i]);
                i += 1;
            }
        }
        if name.ends_with("ln") {
            cur.push('\n');
        }
        pieces.push(self.text_lit(&cur));
        let body = format!("rt_text(){}", pieces.join(""));
        match target {
            Some(t) => format!("({}).rt_write_fmt(&{})", t, body),
            None if name == "format" => body,
            None => "()".to_string(),
        }
    }
    /// literal text: blanks, and words by their number in the spec's vocabulary (0: not in it)
    fn text_lit(&self, t: &str) -> String {
        let mut out = String::new();
        let mut word = String::new();
        let flush = |w: &mut String, out: &mut String| {
            if !w.is_empty() {
                let low = if w.contains('_') { w.clone() } else { w.to_lowercase() };
                let id = self.w.spec.texts.get(&low).cloned().unwrap_or(0);
                out.push_str(&format!(".txt(Ghost({}))", id));
                w.clear();
            }
        };
        for c in t.chars() {
            if c.is_whitespace() {
                flush(&mut word, &mut out);
                if let (true, Some(id)) = (c == '\n', self.w.spec.texts.get("\\n")) {
                    out.push_str(&format!(".txt(Ghost({}))", id)); // line ends count
                } else if !out.ends_with(".ws()") {
                    out.push_str(".ws()");
                }
            } else {
                word.push(c);
            }
        }
        flush(&mut word, &mut out);
        out
    }

    // ---------- expressions
    fn exs<'b>(&mut self, it: impl Iterator<Item = &'b syn::Expr>) -> Vec<(Range<usize>, String)> {
        it.map(|e| (rng(e.span()), self.ex(e))).collect()
    }
    fn ex(&mut self, e: &syn::Expr) -> String {
        let r = rng(e.span());
        if let Some(sp) = self.spec {
            if !sp.subst.is_empty() {
                let t = norm(&self.src[r.clone()]);
                for (a, b) in &sp.subst {
                    if norm(a) == t {
                        return b.clone();
                    }
                }
            }
        }
        self.generic(e)
    }
    fn generic(&mut self, e: &syn::Expr) -> String {
        use syn::Expr as E;
        let r = rng(e.span());
        match e {
            E::Lit(l) => match &l.lit {
                syn::Lit::ByteStr(b) if !self.w.spec.texts.is_empty() => {
                    format!("(rt_text(){}).as_bytes()", self.text_lit(&String::from_utf8_lossy(&b.value())))
                }
                syn::Lit::Int(i) if i.suffix() == "f64" => match real_lit(i.base10_digits()) {
                    Some(v) => format!("F64::lit(Ghost({}))", v),
                    None => self.text(r),
                },
                syn::Lit::Float(f) => match real_lit(&f.to_string()) {
                    Some(x) => format!("F64::lit(Ghost({}))", x),
                    None => {
                        self.err("float literal");
                        String::new()
                    }
                },
                _ => self.text(r),
            },
            E::Path(p) => {
                let n = norm(&self.src[r.clone()]);
                if let Some(x) = self.w.spec.path_map.get(&n) {
                    return x.clone();
                }
                if let Some(t) = self.w.iconsts.get(&p.path.segments.last().unwrap().ident.to_string()) {
                    return t.clone();
                }
                if p.path.segments.len() == 1 {
                    let id = p.path.segments[0].ident.to_string();
                    if self.w.consts.contains_key(&id) {
                        return format!("const_{}()", id);
                    }
                }
                match n.as_str() {
                    "f64::NAN" | "std::f64::NAN" | "NAN" => return "F64::nan()".into(),
                    "f64::INFINITY" | "std::f64::INFINITY" => return "F64::pinf()".into(),
                    "f64::NEG_INFINITY" | "std::f64::NEG_INFINITY" => return "F64::ninf()".into(),
                    "f64::MAX" | "std::f64::MAX" => return "F64::max_value()".into(),
                    "f64::MIN" | "std::f64::MIN" => return "F64::min_value()".into(),
                    "f64::EPSILON" | "std::f64::EPSILON" => return "F64::epsilon()".into(),
                    "f64::MIN_POSITIVE" | "std::f64::MIN_POSITIVE" => return "F64::min_positive()".into(),
                    _ => {}
                }
                if let Some(q) = &p.qself {
                    let t = norm(&self.src[rng(q.ty.span())]);
                    if (t == "f64" || self.tparams.contains(&t)) && p.path.segments.len() == 1 {
                        return format!("F64::{}", p.path.segments[0].ident);
                    }
                }
                // T::zero() and paths with type arguments
                if p.path.segments.len() >= 2 {
                    let s0 = p.path.segments[0].ident.to_string();
                    if self.tparams.contains(&s0) || s0 == "f64" {
                        let rest: Vec<String> =
                            p.path.segments.iter().skip(1).map(|s| s.ident.to_string()).collect();
                        return format!("F64::{}", rest.join("::"));
                    }
                    if self.w.spec.mono.contains(&s0) {
                        let rest: Vec<String> =
                            p.path.segments.iter().skip(1).map(|s| s.ident.to_string()).collect();
                        return format!("{}::{}", s0, rest.join("::"));
                    }
                }
                self.path_ty(&p.path, r, p.qself.is_some())
            }
            E::Binary(b) => self.binary(b, r),
            E::Unary(u) => {
                let x = self.ex(&u.expr);
                if matches!(u.op, syn::UnOp::Deref(_)) && self.is_raw(&u.expr) {
                    return format!("rt_load({}, __m)", x);
                }
                if let syn::UnOp::Neg(_) = u.op {
                    if let E::Lit(l) = peel(&u.expr) {
                        let fs = match &l.lit {
                            syn::Lit::Float(f) => Some(f.to_string()),
                            syn::Lit::Int(i) if i.suffix() == "f64" => Some(i.base10_digits().to_string()),
                            _ => None,
                        };
                        if let Some(f) = fs {
                            if let Some(v) = real_lit(&format!("-{}", f)) {
                                return format!("F64::lit(Ghost({}))", v);
                            }
                        }
                    }
                }
                self.splice(r, vec![(rng(u.expr.span()), x)])
            }
            E::Paren(p) => format!("({})", self.ex(&p.expr)),
            E::Group(p) => self.ex(&p.expr),
            E::Array(a) => {
                let ps = self.exs(a.elems.iter());
                self.splice(r, ps)
            }
            E::Tuple(a) => {
                let ps = self.exs(a.elems.iter());
                self.splice(r, ps)
            }
            E::Assign(a) => {
                if let E::Unary(u) = peel(&a.left) {
                    if matches!(u.op, syn::UnOp::Deref(_)) && self.is_raw(&u.expr) {
                        let l = self.ex(&u.expr);
                        let x = self.ex(&a.right);
                        return format!("rt_store({}, {}, __m)", l, x);
                    }
                }
                let l = self.ex(&a.left);
                let nm = match peel(&a.left) {
                    E::Path(p) => p.path.get_ident().map(|i| i.to_string()),
                    _ => None,
                };
                self.target(nm, &a.right, None);
                let x = self.ex(&a.right);
                self.target = None;
                self.splice(r, vec![(rng(a.left.span()), l), (rng(a.right.span()), x)])
            }
            E::Block(b) => {
                if b.label.is_some() {
                    self.err("labelled block");
                }
                self.block(&b.block)
            }
            E::Unsafe(b) => {
                let t = self.block(&b.block);
                t
            }
            E::Break(b) => {
                if b.expr.is_some() {
                    self.err("break with value");
                }
                self.text(r)
            }
            E::Continue(_) => match self.loop_end.last() {
                Some(Some(end)) if !end.trim().is_empty() => format!("{{ {} {} }}", end.clone(), self.text(r)),
                _ => self.text(r),
            },
            E::Call(c) => {
                if let E::Path(p) = peel(&c.func) {
                    let l: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if l.len() >= 2 && l[l.len() - 1] == "from_iter" && c.args.len() == 1 && !std::mem::take(&mut self.keep_once) {
                        if let Some(t) = self.chain_of(e, &c.args[0], &l[l.len() - 2].to_lowercase()) {
                            return t;
                        }
                    }

                    // a capacity hint changes no value; it is dropped when it only reads lengths
                    if l.len() >= 2 && l[l.len() - 1] == "with_capacity" && c.args.len() == 1 && len_expr(&c.args[0]) {
                        let h = self.ex(&c.func);
                        if let Some(h) = h.trim().strip_suffix("with_capacity") {
                            return format!("{}new()", h);
                        }
                    }
                    if l.len() == 2 && l[0] == "Box" && l[1] == "new" && c.args.len() == 1 {
                        if let E::Closure(cl) = peel(&c.args[0]) {
                            let lift = self.spec.and_then(|s| s.lifts.get(&self.nclos).cloned());
                            if let Some(lf) = lift {
                                return self.lift(cl, &lf);
                            }
                        }
                    }
                    self.callees.push(p.path.segments.last().unwrap().ident.to_string());
                    if !self.variant.is_empty() && l.len() == 2 {
                        let ty = if l[0] == "Self" { self.self_ty.clone() } else { l[0].clone() };
                        if self.w.spec.fns.contains_key(&format!("{}::{}!{}", ty, l[1], self.variant)) {
                            let ps = self.exs(c.args.iter()).into_iter().map(|x| x.1).collect::<Vec<_>>();
                            return format!("{}::{}__{}({})", ty, l[1], self.variant, ps.join(", "));
                        }
                    }
                }
                // a stored function: (self.f)(..)
                if let E::Paren(pe) = &*c.func {
                    if let E::Field(_) = peel(&pe.expr) {
                        let f = self.ex(&pe.expr);
                        let ps = self.exs(c.args.iter()).into_iter().map(|x| x.1).collect::<Vec<_>>();
                        return format!("{}.rt_call({})", f, ps.join(", "));
                    }
                }
                let mut ps = self.exs(c.args.iter());
                let mut f = self.ex(&c.func);
                if norm(&f).trim_start_matches("std::") == "ptr::eq" {
                    f = "ptr_same".to_string();
                }
                if norm(&f) == "String::from" {
                    f = "rt_string".to_string();
                }
                if norm(&f).trim_start_matches("std::") == "ptr::hash" {
                    f = "rt_ptr_hash".to_string();
                    // Rc::as_ptr(x) points at the same object as &**x
                    if let Some(syn::Expr::Call(c1)) = c.args.first() {
                        if c1.args.len() == 1 && norm(&self.src[rng(c1.func.span())]) == "Rc::as_ptr" {
                            let x = self.ex(&c1.args[0]);
                            ps[0].1 = format!("&**({})", x);
                        }
                    }
                }
                if let E::Path(p) = peel(&c.func) {
                    if let Some(x) = self.w.spec.callargs.get(&p.path.segments.last().unwrap().ident.to_string()) {
                        let mut l: Vec<String> = ps.into_iter().map(|x| x.1).collect();
                        l.push(x.clone());
                        return format!("{}({})", f, l.join(", "));
                    }
                }
                ps.push((rng(c.func.span()), f));
                self.splice(r, ps)
            }
            E::MethodCall(m) => {
                // Result::and_then with a closure, Option::and_then with a function
                if m.method == "and_then" && m.args.len() == 1 && !self.w.spec.world.is_empty() {
                    match peel(&m.args[0]) {
                        E::Closure(cl) if cl.inputs.len() == 1 => {
                            let x = self.ex(&m.receiver);
                            let p = self.pat(&cl.inputs[0]);
                            let b = self.ex(&cl.body);
                            return format!("(match {} {{ Ok({}) => {}, Err(__e) => Err(__e) }})", x, p, b);
                        }
                        E::Path(_) => {
                            let x = self.ex(&m.receiver);
                            let g = self.ex(&m.args[0]);
                            return format!("(match {} {{ Some(__v) => {}(__v), None => None }})", x, g);
                        }
                        _ => {}
                    }
                }
                // the arguments of a command
                if m.method == "args" && m.args.len() == 1 && !self.w.spec.world.is_empty() {
                    let mut a = peel(&m.args[0]);
                    if let E::Reference(rf) = a {
                        a = peel(&rf.expr);
                    }
                    if let E::Array(arr) = a {
                        let mut t = self.ex(&m.receiver);
                        for e in &arr.elems {
                            t = format!("{}.arg({})", t, self.ex(e));
                        }
                        return t;
                    }
                }
                if std::mem::take(&mut self.keep_once) {
                } else if let Some(t) = self.chain(e) {
                    return t;
                }
                let name = m.method.to_string();
                if name == "as_bytes" && !self.w.spec.texts.is_empty() {
                    if let E::Lit(l) = peel(&m.receiver) {
                        if let syn::Lit::Str(s) = &l.lit {
                            return format!("(rt_text(){}).as_bytes()", self.text_lit(&s.value()));
                        }
                    }
                }
                if name == "to_string" && m.args.is_empty() && !self.w.spec.texts.is_empty() && !self.w.spec.skip_traits.contains("Display") {
                    return format!("rt_text().arg(&({}), Ghost(-1))", self.ex(&m.receiver));
                }
                self.callees.push(name.clone());
                let name = match name.as_str() {
                    "as_ref" => "rt_as_ref".to_string(),
                    "extend" => "rt_extend".to_string(),
                    _ => name,
                };
                // the first entry of a hash container: any entry
                if name == "next" {
                    if let syn::Expr::MethodCall(c) = peel(&m.receiver) {
                        let f = match c.method.to_string().as_str() {
                            "keys" => "rt_first_key",
                            "values" => "rt_first_value",
                            _ => "",
                        };
                        if !f.is_empty() {
                            return format!("{}.{}()", self.ex(&c.receiver), f);
                        }
                    }
                }
                let rt = self.ex(&m.receiver);
                // extend(iterator): the items are collected first
                if name == "rt_extend" && m.args.len() == 1 {
                    if let syn::Expr::MethodCall(c) = peel(&m.args[0]) {
                        if matches!(c.method.to_string().as_str(), "map" | "filter" | "cloned" | "copied" | "zip" | "enumerate") {
                            if let Some(t) = self.chain_of(e, &m.args[0], "collect") {
                                return format!("{}.rt_extend({})", rt, t);
                            }
                        }
                    }
                }
                let mut args: Vec<String> = m.args.iter().map(|a| self.ex(a)).collect();
                if let Some(x) = self.w.spec.callargs.get(&name) {
                    args.push(x.clone());
                }
                if name == "sort_by" && args.len() == 1 {
                    return format!("rt_sort_by(&mut {}, {})", rt, args[0]);
                }
                if let Some(f) = self.w.spec.method_map.get(&name) {
                    if f.starts_with('.') {
                        return format!("{}{}({})", rt, f, args.join(", "));
                    }
                    let (f, pre) = match f.strip_prefix('&') {
                        Some(g) => (g.to_string(), "&"),
                        None => (f.clone(), ""),
                    };
                    let mut l = vec![format!("{}{}", pre, rt)];
                    l.extend(args);
                    return format!("{}({})", f, l.join(", "));
                }
                let tf = match &m.turbofish {
                    Some(t) => {
                        let mut l = vec![];
                        for x in &t.args {
                            match x {
                                syn::GenericArgument::Type(t) => l.push(self.ty(t)),
                                _ => l.push("_".into()),
                            }
                        }
                        format!("::<{}>", l.join(", "))
                    }
                    None => String::new(),
                };
                // a sibling method of a flattened generic trait
                let name = if rt.trim() == "self" && self.siblings.0.contains(&name) {
                    format!("{}__{}", name, self.siblings.1)
                } else {
                    name
                };
                format!("{}.{}{}({})", rt, name, tf, args.join(", "))
            }
            E::Cast(c) => {
                let x = self.ex(&c.expr);
                if let syn::Type::Ptr(_) = &*c.ty {
                    return x;
                }
                let tyt = norm(&self.src[rng(c.ty.span())]);
                if tyt == "f64" {
                    format!("F64::from_int({} as int)", x)
                } else {
                    let t = self.ty(&c.ty);
                    self.splice(r, vec![(rng(c.expr.span()), x), (rng(c.ty.span()), t)])
                }
            }
            E::Closure(c) => {
                let k = self.nclos;
                self.nclos += 1;
                let ct = self.spec.and_then(|s| s.closures.get(&k).cloned());
                let ins: Vec<String> = c
                    .inputs
                    .iter()
                    .map(|p| match p {
                        syn::Pat::Reference(_) => self.text(rng(p.span())),
                        _ => self.pat(p),
                    })
                    .collect();
                let b = self.ex(&c.body);
                let mv = if c.capture.is_some() { "move " } else { "" };
                match ct {
                    Some(t) => {
                        let mut t = t;
                        for (i, n) in ins.iter().enumerate() {
                            t = t.replace(&format!("${}", i), n);
                        }
                        format!("{}{} {{ {} }}", mv, t, b)
                    }
                    None => {
                        let ret = match &c.output {
                            syn::ReturnType::Default => String::new(),
                            syn::ReturnType::Type(_, t) => format!(" -> {}", self.ty(t)),
                        };
                        if ret.is_empty() {
                            format!("{}|{}| {}", mv, ins.join(", "), b)
                        } else {
                            format!("{}|{}|{} {{ {} }}", mv, ins.join(", "), ret, b)
                        }
                    }
                }
            }
            E::Field(f) => {
                let x = self.ex(&f.base);
                self.splice(r, vec![(rng(f.base.span()), x)])
            }
            E::Index(i) => {
                let a = self.ex(&i.expr);
                let b = self.ex(&i.index);
                // a map is indexed by looking up the key
                if self.is_map(&i.expr) {
                    return format!("(*{}.get({}).unwrap())", a, b);
                }
                self.splice(r, vec![(rng(i.expr.span()), a), (rng(i.index.span()), b)])
            }
            E::If(i) => {
                let c = self.ex(&i.cond);
                let t = self.block(&i.then_branch);
                let mut ps = vec![(rng(i.cond.span()), c), (rng(i.then_branch.span()), t)];
                if let Some((_, e)) = &i.else_branch {
                    ps.push((rng(e.span()), self.ex(e)));
                }
                self.splice(r, ps)
            }
            E::Let(l) => {
                let p = self.pat(&l.pat);
                let x = self.ex(&l.expr);
                self.splice(r, vec![(rng(l.pat.span()), p), (rng(l.expr.span()), x)])
            }
            E::ForLoop(f) => self.for_loop(f),
            E::While(w) => {
                let k = self.slot();
                self.took(norm(&self.text(rng(w.cond.span()))), norm(&self.text(rng(w.span()))));
                let (_mode, inv) = self.loop_spec(k);
                let before = self.at(&format!("loop {} before", k));
                let after = self.at(&format!("loop {} after", k));
                let begin = format!("{}{}", self.bcast(), self.at(&format!("loop {} begin", k)));
                let end = self.at(&format!("loop {} end", k));
                let label = w.label.as_ref().map(|l| format!("{} ", self.text(rng(l.span())))).unwrap_or_default();
                if let E::Let(l) = peel(&w.cond) {
                    let p = self.pat(&l.pat);
                    let x = self.ex(&l.expr);
                    self.loop_end.push(Some(end.clone()));
                    let bc = self.bcast();
                    let b = self.block_with(&w.body, &bc, &end);
                    self.loop_end.pop();
                    return format!(
                        "{{ {before} {label}loop\n{inv} {{ {begin} match {x} {{ {p} => {b}, _ => {{ break; }} }} }} {after} }}"
                    );
                }
                let c = self.ex(&w.cond);
                self.loop_end.push(Some(end.clone()));
                let b = self.block_with(&w.body, &begin, &end);
                self.loop_end.pop();
                format!("{{ {before} {label}while {c}\n{inv} {b} {after} }}")
            }
            E::Loop(l) => {
                let k = self.slot();
                self.took("loop".into(), norm(&self.text(rng(l.span()))));
                let (_m, inv) = self.loop_spec(k);
                let before = self.at(&format!("loop {} before", k));
                let after = self.at(&format!("loop {} after", k));
                let begin = format!("{}{}", self.bcast(), self.at(&format!("loop {} begin", k)));
                let end = self.at(&format!("loop {} end", k));
                let label = l.label.as_ref().map(|l| format!("{} ", self.text(rng(l.span())))).unwrap_or_default();
                self.loop_end.push(Some(end.clone()));
                let b = self.block_with(&l.body, &begin, &end);
                self.loop_end.pop();
                format!("{{ {before} {label}loop\n{inv} {b} {after} }}")
            }
            E::Macro(m) => self.mac(&m.mac, r),
            E::Match(m) => {
                let mut ps = vec![(rng(m.expr.span()), self.ex(&m.expr))];
                for a in &m.arms {
                    ps.push((rng(a.pat.span()), self.pat(&a.pat)));
                    if let Some((_, g)) = &a.guard {
                        ps.push((rng(g.span()), self.ex(g)));
                    }
                    ps.push((rng(a.body.span()), self.ex(&a.body)));
                }
                self.splice(r, ps)
            }
            E::Range(x) => {
                let mut ps = vec![];
                if let Some(a) = &x.start {
                    ps.push((rng(a.span()), self.ex(a)));
                }
                if let Some(a) = &x.end {
                    ps.push((rng(a.span()), self.ex(a)));
                }
                self.splice(r, ps)
            }
            E::Reference(x) => {
                // &mut *(p as *mut T)
                if let E::Unary(u) = peel(&x.expr) {
                    if let (syn::UnOp::Deref(_), E::Cast(c)) = (&u.op, peel(&u.expr)) {
                        if let (syn::Type::Ptr(_), true) = (&*c.ty, self.is_raw(&c.expr)) {
                            return format!("rt_user({}, __p)", self.ex(&c.expr));
                        }
                    }
                }
                let t = self.ex(&x.expr);
                self.splice(r, vec![(rng(x.expr.span()), t)])
            }
            E::Repeat(x) => {
                let t = self.ex(&x.expr);
                self.splice(r, vec![(rng(x.expr.span()), t)])
            }
            E::Return(x) => match &x.expr {
                Some(v) => {
                    let t = self.ex(v);
                    let pre = self.at("return");
                    if pre.is_empty() {
                        format!("return {}", t)
                    } else {
                        format!("{{ {} return {} }}", pre, t)
                    }
                }
                None => {
                    let pre = self.at("return");
                    format!("{{ {} return }}", pre)
                }
            },
            E::Struct(s) => {
                if s.rest.is_some() {
                    self.err("struct update");
                }
                let name = s.path.segments.last().unwrap().ident.to_string();
                let real = if name == "Self" { self.self_ty.clone() } else { name.clone() };
                let mut l = vec![];
                for f in &s.fields {
                    let m = match &f.member {
                        syn::Member::Named(n) => n.to_string(),
                        syn::Member::Unnamed(n) => n.index.to_string(),
                    };
                    l.push(format!("{}: {}", m, self.ex(&f.expr)));
                }
                if self.w.spec.id_structs.contains(real.split('<').next().unwrap()) {
                    l.push("id: fresh_id()".into());
                }
                let pt = if self.w.spec.mono.contains(&name) {
                    name
                } else {
                    self.path_ty(&s.path, rng(s.path.span()), false)
                };
                format!("{} {{ {} }}", pt, l.join(", "))
            }
            E::Try(t) => {
                let x = self.ex(&t.expr);
                self.splice(r, vec![(rng(t.expr.span()), x)])
            }
            _ => {
                self.err(format!("unsupported expression: {}", norm(&self.text(r.clone()))));
                self.text(r)
            }
        }
    }
    /// An evaluation closure becomes a function of its captures and parameters, verified
    /// against the contract of the function object that replaces the closure.
    fn lift(&mut self, c: &syn::ExprClosure, lf: &crate::spec::Lift) -> String {
        let k = self.nclos;
        self.nclos += 1;
        let mut ps = vec![];
        let mut names = vec![];
        for p in &c.inputs {
            match p {
                syn::Pat::Type(t) => {
                    let a = self.pat(&t.pat);
                    let b = self.ty(&t.ty);
                    names.push(a.clone());
                    ps.push(format!("{}: {}", a, b));
                }
                _ => self.err("closure parameter without a type"),
            }
        }
        if names.len() != 7 {
            self.err("not an evaluation closure");
            return String::new();
        }
        if lf.opaque {
            let id = format!("{}_{}", self.fn_id, k);
            self.lifted.push_str(&format!("#[verifier::external_body]\npub fn mk_{id}() -> (r: EvalFn)\n{{ unimplemented!() }}\n"));
            return format!("mk_{id}()");
        }
        let begin = format!("{}{}", self.bcast(), self.at(&format!("lift {} begin", k)));
        let end = self.at(&format!("lift {} end", k));
        let body = match peel(&c.body) {
            syn::Expr::Block(b) => self.block_with(&b.block, &begin, &end),
            e => format!("{{ {} {}; {} }}", begin, self.ex(e), end),
        };
        let caps: Vec<String> = lf.caps.iter().map(|(a, b)| format!("{}: {}", a, b)).collect();
        let id = format!("{}_{}", self.fn_id, k);
        let st = |w: &str| {
            format!(
                "ev_state(*{w}({}), {w}({})@, *{w}({}), {w}({})@, *{w}({}), {w}({})@)",
                names[0], names[1], names[2], names[3], names[4], names[5]
            )
        };
        let pre = if lf.pre.is_empty() { "true".to_string() } else { lf.pre.clone() };
        self.lifted.push_str(&format!(
            "pub fn lift_{id}({}{}{})\n    requires ({{ let s = {}; let x = {}@; {} }}),\n    ensures ({{ let s = {}; let s2 = {}; let x = {}@; {} }}),\n{}\n",
            caps.join(", "),
            if caps.is_empty() { "" } else { ", " },
            ps.join(", "),
            st("old"), names[6], pre,
            st("old"), st("final"), names[6], lf.post,
            body
        ));
        self.lifted.push_str(&format!(
            "#[verifier::external_body]\npub fn mk_{id}({}) -> (r: EvalFn)\n    ensures forall|s: EvState, x: Seq<F64>| {{ {} }} ==> #[trigger] ev_pre(r, s, x),\n        forall|s: EvState, x: Seq<F64>, s2: EvState| {{ {} }} && #[trigger] ev_rel(r, s, x, s2) ==> {{ {} }},\n{{ unimplemented!() }}\n",
            caps.join(", "), pre, pre, lf.post
        ));
        let a: Vec<String> = lf.caps.iter().map(|x| x.0.clone()).collect();
        format!("mk_{id}({})", a.join(", "))
    }
    fn binary(&mut self, b: &syn::ExprBinary, r: Range<usize>) -> String {
        use syn::BinOp as B;
        let l = self.ex(&b.left);
        let x = self.ex(&b.right);
        // text compared with literal text
        if self.w.spec.strs && matches!(b.op, B::Eq(_) | B::Ne(_)) {
            let is_str = |e: &syn::Expr| matches!(peel(e), syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)));
            let is_some = |e: &syn::Expr| matches!(peel(e), syn::Expr::Call(c) if c.args.len() == 1 && is_str(&c.args[0]));
            let neg = if matches!(b.op, B::Ne(_)) { "!" } else { "" };
            let f = if is_str(&b.left) || is_str(&b.right) { "rt_str_eq" } else if is_some(&b.left) || is_some(&b.right) { "rt_opt_str_eq" } else { "" };
            if !f.is_empty() {
                return format!("{}{}(&{}, &{})", neg, f, l, x);
            }
        }
        // raw pointer identity
        let is_ptr = |e: &syn::Expr| matches!(peel(e), syn::Expr::Cast(c) if matches!(&*c.ty, syn::Type::Ptr(_)));
        if matches!(b.op, B::Eq(_) | B::Ne(_)) && (is_ptr(&b.left) || is_ptr(&b.right)) {
            let mut side = |e: &syn::Expr| match peel(e) {
                syn::Expr::Cast(c) if matches!(&*c.ty, syn::Type::Ptr(_)) => self.ex(&c.expr),
                o => self.ex(o),
            };
            let (a, y) = (side(&b.left), side(&b.right));
            let neg = if matches!(b.op, B::Ne(_)) { "!" } else { "" };
            return format!("{}ptr_same({}, {})", neg, a, y);
        }
        if let B::AddAssign(_) = b.op {
            let n = norm(&self.src[rng(b.left.span())]);
            if let Some(t) = self.locals.get(&n) {
                let t = t.clone();
                if self.w.spec.fns.contains_key(&format!("{}::add_assign", t)) {
                    self.callees.push("add_assign".into());
                    return format!("{}.add_assign({})", l, x);
                }
            }
        }
        let op = match &b.op {
            B::AddAssign(_) => "+",
            B::SubAssign(_) => "-",
            B::MulAssign(_) => "*",
            B::DivAssign(_) => "/",
            _ => "",
        };
        // on bool; both sides are evaluated
        match &b.op {
            B::BitAndAssign(_) => return format!("{} = rt_and({}, {})", l, l, x),
            B::BitOrAssign(_) => return format!("{} = rt_or({}, {})", l, l, x),
            B::BitAnd(_) => return format!("rt_and({}, {})", l, x),
            B::BitOr(_) => return format!("rt_or({}, {})", l, x),
            _ => {}
        }
        if !op.is_empty() {
            return format!("{} = {} {} ({})", l, l, op, x);
        }
        let call = match &b.op {
            B::Add(_) => ("Add", "add"),
            B::Sub(_) => ("Sub", "sub"),
            B::Mul(_) => ("Mul", "mul"),
            B::Div(_) => ("Div", "div"),
            _ => ("", ""),
        };
        if self.w.spec.opcalls.iter().any(|o| o == call.1) {
            return format!("core::ops::{}::{}({}, {})", call.0, call.1, l, x);
        }
        self.splice(r, vec![(rng(b.left.span()), l), (rng(b.right.span()), x)])
    }
}

/// `let (a, b) = (x, y);`, as two bindings where y or x is a mutable borrow
/// how a number is printed: -1 in full, n for n digits after the point in scientific notation, -2 otherwise
fn fmt_prec(f: &str) -> i32 {
    match f {
        "" | ":" => -1,
        ":e" | ":E" => -3,
        ":?" => -4,
        _ => {
            let t = f.trim_start_matches(':');
            match t.strip_prefix('.').and_then(|t| t.strip_suffix('e').or_else(|| t.strip_suffix('E'))) {
                Some(n) => n.parse::<i32>().unwrap_or(-2),
                None => -2,
            }
        }
    }
}
/// `NAME(..)` -> `true`
fn drop_calls(mut s: String, name: &str) -> String {
    while let Some(i) = s.find(name) {
        let mut d = 1;
        let mut j = i + name.len();
        for (o, c) in s[j..].char_indices() {
            d += match c {
                '(' => 1,
                ')' => -1,
                _ => 0,
            };
            if d == 0 {
                j += o + 1;
                break;
            }
        }
        s.replace_range(i..j, "true");
    }
    s
}
/// an unlabelled `continue` of this very loop
fn has_continue(b: &syn::Block) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_continue(&mut self, _: &'a syn::ExprContinue) {
            self.0 = true;
        }
        fn visit_expr_for_loop(&mut self, _: &'a syn::ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'a syn::ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a syn::ExprLoop) {}
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}
/// the invariant of a `for` loop over the index `var`, for the `while` loop that counts `__nK`
fn while_inv(inv: &str, k: usize, var: &str) -> String {
    let mut out = String::new();
    let cs: Vec<char> = inv.chars().collect();
    let id = |c: char| c.is_alphanumeric() || c == '_';
    let mut i = 0;
    while i < cs.len() {
        if id(cs[i]) && (i == 0 || !id(cs[i - 1])) {
            let mut j = i;
            while j < cs.len() && id(cs[j]) {
                j += 1;
            }
            let w: String = cs[i..j].iter().collect();
            out.push_str(&if w == var { format!("__n{}", k) } else { w });
            i = j;
        } else {
            out.push(cs[i]);
            i += 1;
        }
    }
    let t = out.trim().strip_prefix("invariant").unwrap_or("").trim().trim_end_matches(',').to_string();
    format!(
        "    invariant __lo{k} <= __n{k}, __n{k} <= __hi{k} || __n{k} == __lo{k}{}{}\n    decreases __hi{k} - __n{k},",
        if t.is_empty() { "," } else { ", " },
        if t.is_empty() { String::new() } else { format!("{},", t) }
    )
}
fn split_bind(p: &syn::Pat, pat: &str, item: &str) -> String {
    if let syn::Pat::Tuple(t) = p {
        if let (2, Ok(syn::Expr::Tuple(e))) = (t.elems.len(), syn::parse_str::<syn::Expr>(item)) {
            let m = |e: &syn::Expr| matches!(peel(e), syn::Expr::Reference(r) if r.mutability.is_some());
            if e.elems.len() == 2 && (m(&e.elems[0]) || m(&e.elems[1])) {
                if let Ok(syn::Pat::Tuple(pt)) = syn::parse::Parser::parse_str(syn::Pat::parse_single, pat) {
                    use quote::ToTokens;
                    return (0..2).map(|i| format!("let {} = {};", pt.elems[i].to_token_stream(), e.elems[i].to_token_stream())).collect();
                }
            }
        }
    }
    format!("let {} = {};", pat, item)
}

fn ann(t: &str) -> String {
    let t = t.trim();
    if t.is_empty() {
        String::new()
    } else {
        format!(": {}", t)
    }
}

fn local_name(p: &syn::Pat) -> Option<String> {
    match p {
        syn::Pat::Ident(i) => Some(i.ident.to_string()),
        syn::Pat::Type(t) => local_name(&t.pat),
        syn::Pat::Tuple(t) => t.elems.first().and_then(local_name),
        _ => None,
    }
}

const OPS: &[(&str, &str)] = &[("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Neg", "neg")];

thread_local! {
    pub static FPS: std::cell::RefCell<Vec<(String, String)>> = std::cell::RefCell::new(vec![]);
}

fn short(t: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in t.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    format!("{:08x}", (h ^ (h >> 32)) as u32)
}

/// which loop of the contract is which loop of the source: the same text in the same place, the
/// same text elsewhere, the same head in place, the same head elsewhere, then in order
fn assign(src: &[(String, String)], rec: &[(String, String)]) -> Vec<usize> {
    let n = src.len();
    let mut to = vec![usize::MAX; n];
    let mut used = vec![false; rec.len()];
    for stage in 0..4 {
        let key = |x: &(String, String)| if stage < 2 { format!("{} {}", x.0, x.1) } else { x.0.clone() };
        for i in 0..n {
            if to[i] != usize::MAX {
                continue;
            }
            if stage % 2 == 0 {
                if i < rec.len() && !used[i] && key(&src[i]) == key(&rec[i]) {
                    to[i] = i;
                    used[i] = true;
                }
            } else if let Some(j) = (0..rec.len()).find(|j| !used[*j] && key(&src[i]) == key(&rec[*j])) {
                to[i] = j;
                used[j] = true;
            }
        }
    }
    let mut rest = (0..rec.len()).filter(|j| !used[*j]).collect::<Vec<_>>().into_iter();
    let mut extra = rec.len();
    for t in to.iter_mut() {
        if *t == usize::MAX {
            *t = rest.next().unwrap_or_else(|| {
                extra += 1;
                extra - 1
            });
        }
    }
    to
}

pub fn emit_fn(w: &World, f: &FnSrc, spec: Option<&FnSpec>, external: bool, variant: &str) -> Result<Emitted, String> {
    let r = emit_fn_with(w, f, spec, external, variant, vec![]);
    if external {
        return r;
    }
    let key = if variant.is_empty() { f.key.clone() } else { format!("{}!{}", f.key, variant) };
    if let Some(rec) = w.loops.get(&key) {
        let src = FPS.with(|x| x.borrow().clone());
        if *rec != src && src.len() == rec.len() {
            let p = assign(&src, rec);
            if p.iter().enumerate().any(|(i, j)| i != *j) {
                return emit_fn_with(w, f, spec, external, variant, p);
            }
        }
    }
    r
}

fn emit_fn_with(w: &World, f: &FnSrc, spec: Option<&FnSpec>, external: bool, variant: &str, perm: Vec<usize>) -> Result<Emitted, String> {
    let empty = FnSpec::default();
    let sp = spec.unwrap_or(&empty);
    let external = external || sp.opaque;
    let mut tparams: Vec<String> = f.hdr.as_ref().map(|h| h.tparams.clone()).unwrap_or_default();
    let is_hasher = |t: &&syn::TypeParam| t.bounds.iter().any(|b| norm(&f.src[rng(b.span())]).ends_with("Hasher"));
    let hashers: Vec<String> = f.sig.generics.type_params().filter(is_hasher).map(|t| t.ident.to_string()).collect();
    let own: Vec<String> = f.sig.generics.type_params().filter(|t| !is_hasher(t)).map(|t| t.ident.to_string()).collect();
    if own.is_empty() {
    } else if sp.sig.is_none() {
        tparams.extend(own);
    }
    let mut l = Lower::new(&f.src, w, Some(sp), tparams);
    l.hashers = hashers;
    l.variant = variant.to_string();
    l.perm = perm;
    l.fn_id = f.key.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect::<String>() + variant;
    if let Some(h) = &f.hdr {
        if let Some(m) = &h.mangle {
            l.siblings = (h.trait_methods.clone(), m.clone());
        }
    }
    if let Some(h) = &f.hdr {
        l.self_ty = h.self_ty.clone();
        l.assoc = h.assoc.clone();
    }
    // signature
    let mut lts: Vec<String> = f.sig.generics.lifetimes().map(|x| x.lifetime.to_string()).collect();
    let mut params = vec![];
    for a in &f.sig.inputs {
        match a {
            syn::FnArg::Receiver(r) => params.push(f.src[rng(r.span())].to_string()),
            syn::FnArg::Typed(t) => {
                let p = l.pat(&t.pat);
                let ty = l.ty(&t.ty);
                if let (syn::Type::Ptr(_), syn::Pat::Ident(i)) = (&*t.ty, &*t.pat) {
                    l.raw.insert(i.ident.to_string());
                }
                if let syn::Pat::Ident(i) = &*t.pat {
                    let src_ty = norm(&f.src[rng(t.ty.span())]);
                    if src_ty.trim_start_matches('&').trim().starts_with("HashMap") {
                        l.locals.insert(i.ident.to_string(), src_ty);
                    }
                }
                params.push(format!("{}: {}", p, ty));
            }
        }
    }
    if let Some(x) = w.spec.fnparams.get(&f.sig.ident.to_string()) {
        params.push(x.clone());
    }
    let ret = match &f.sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => {
            let ty = l.ty(t);
            if sp.ret.is_some() || sp.contract.contains("ensures") {
                format!(" -> ({}: {})", sp.ret.clone().unwrap_or("res".into()), ty)
            } else {
                format!(" -> {}", ty)
            }
        }
    };
    let body = if external {
        "{ unimplemented!() }".to_string()
    } else {
        let mut begin = l.at("begin");
        if w.vacuity {
            // must fail: shows that the preconditions and axioms in scope are not contradictory
            begin = format!("proof {{ assert(false); }}\n{}", begin);
        }
        let end = l.at("end");
        // in the scope of the body, before its final expression
        l.pretail = l.at("pretail");
        let tail = sp.at.iter().position(|(a, _)| a.starts_with("tail"));
        let b = match tail {
            Some(k) => {
                // bind the tail expression so a proof can follow it
                l.used_at[k] = true;
                let nm = sp.at[k].0.strip_prefix("tail").unwrap().trim().to_string();
                let nm = if nm.is_empty() { "__r".to_string() } else { nm };
                let inner = l.block_with(&f.block, &begin, "");
                format!("{{ let {} = {};\n{}\n{} }}", nm, inner, sp.at[k].1, nm)
            }
            None => l.block_with(&f.block, &begin, &end),
        };
        FPS.with(|x| *x.borrow_mut() = l.fps.clone());
        for (k, u) in l.used_at.iter().enumerate() {
            if !u {
                l.errs.push(format!("lost anchor `{}`", sp.at[k].0));
                break;
            }
        }
        let want = sp.nloops.unwrap_or_else(|| sp.loops.keys().max().map(|m| m + 1).unwrap_or(0));
        if l.nloop != want {
            let n = l.nloop;
            l.errs.push(format!("lost anchor: {} loops, contract has {}", n, want));
        }
        if let Some(m) = sp.closures.keys().chain(sp.lifts.keys()).max() {
            if l.nclos <= *m {
                l.errs.push("lost anchor: closure".into());
            }
        }
        if !l.errs.is_empty() {
            return Err(l.errs.join("; "));
        }
        b
    };
    let in_trait = f.hdr.as_ref().map(|h| h.in_trait_impl && !h.flatten && !sp.inherent).unwrap_or(false);
    let name = f.sig.ident.to_string();
    let name = match f.hdr.as_ref().and_then(|h| h.mangle.clone()) {
        Some(m) => format!("{}__{}", name, m),
        None => name,
    };
    let name = if variant.is_empty() { name } else { format!("{}__{}", name, variant) };
    lts.dedup();
    let g = if lts.is_empty() { String::new() } else { format!("<{}>", lts.join(", ")) };
    let mut out = String::new();
    out.push_str(&format!("// {}:{} {}\n", f.file, f.line, f.key));
    let mut fnt = String::new();
    for a in &sp.attrs {
        fnt.push_str(a);
        fnt.push('\n');
    }
    if external {
        fnt.push_str("#[verifier::external_body]\n");
    } else if !sp.attrs.iter().any(|a| a.contains("loop_isolation")) && w.noiso.contains(&if variant.is_empty() { f.key.clone() } else { format!("{}!{}", f.key, variant) }) {
        fnt.push_str("#[verifier::loop_isolation(false)]\n");
    }
    let vis = if in_trait { "" } else { "pub " };
    match &sp.sig {
        Some(s) => fnt.push_str(&format!("{}{}\n", vis, s)),
        None => fnt.push_str(&format!("{}fn {}{}({}){}\n", vis, name, g, params.join(", "), ret)),
    }
    fnt.push_str(&sp.contract);
    fnt.push_str(&body);
    fnt.push('\n');
    match &f.hdr {
        None => out.push_str(&fnt),
        Some(h) => {
            let ig = if h.generics.is_empty() { String::new() } else { format!("<{}>", h.generics.join(", ")) };
            if in_trait {
                let tn = h.trait_name.clone().unwrap();
                let t = h.trait_.clone().unwrap();
                if let Some((_, m)) = OPS.iter().find(|o| o.0 == tn) {
                    let rhs = { let x = t.strip_prefix(&tn).unwrap(); if x.len() >= 2 { x[1..x.len() - 1].to_string() } else { String::new() } };
                    let o = h.assoc.iter().find(|a| a.0 == "Output").map(|a| a.1.clone()).unwrap_or_default();
                    let (g2, st, rhs) = elide(&h.generics, &h.self_ty, &rhs);
                    let rhs_t = if tn == "Neg" {
                        String::new()
                    } else if rhs.is_empty() {
                        format!("<{}>", st)
                    } else {
                        format!("<{}>", rhs)
                    };
                    let rp = if tn == "Neg" { String::new() } else { format!(", rhs: {}", rhs_t[1..rhs_t.len() - 1].to_string()) };
                    let rq = sp.req.clone().unwrap_or("true".into());
                    if !sp.extra.contains("no-spec-impl") {
                        out.push_str(&format!(
                            "impl{g2} vstd::std_specs::ops::{tn}SpecImpl{rhs_t} for {st} {{ open spec fn obeys_{m}_spec() -> bool {{ false }} open spec fn {m}_req(self{rp}) -> bool {{ {rq} }} open spec fn {m}_spec(self{rp}) -> {o} {{ arbitrary() }} }}\n"
                        ));
                    }
                }
                out.push_str(&format!("impl{} {} for {} {{\n", ig, t, h.self_ty));
                for (n, t) in &h.assoc {
                    out.push_str(&format!("type {} = {};\n", n, t));
                }
                out.push_str(&fnt);
                out.push_str("}\n");
            } else {
                out.push_str(&format!("impl{} {} {{\n{}}}\n", ig, h.self_ty, fnt));
            }
        }
    }
    out.push_str(&l.lifted);
    if !sp.extra.is_empty() {
        out.push_str(&sp.extra.replace("no-spec-impl", ""));
    }
    Ok(Emitted { text: out, loops: l.nloop, callees: l.callees })
}

/// explicit lifetimes for the reference types of an operator impl
fn elide(generics: &[String], st: &str, rhs: &str) -> (String, String, String) {
    let mut g: Vec<String> = generics.to_vec();
    let mut fix = |s: &str, n: &str, g: &mut Vec<String>| -> String {
        if let Some(r) = s.strip_prefix('&') {
            if !r.starts_with('\'') {
                g.push(n.to_string());
                return format!("&{} {}", n, r);
            }
        }
        s.to_string()
    };
    let st2 = fix(st, "'xs", &mut g);
    let rhs2 = fix(rhs, "'xr", &mut g);
    let gs = if g.is_empty() { String::new() } else { format!("<{}>", g.join(", ")) };
    (gs, st2, rhs2)
}
