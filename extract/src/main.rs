//! Mechanical extraction of /repo's Rust source into a Verus file.
//!
//! usage: extract --repo /repo --spec DIR --out FILE --json FILE --verify KEYS(,-separated or @file) [--exclude KEYS]
//!
//! The tool parses the real source, expands the local macro_rules items
//! textually, lowers the constructs Verus does not take (documented in
//! DESIGN.md, section "What the extraction drops or rewrites"), and inserts
//! the contracts of the spec files.  Everything else is the original text.
mod inline;
mod lower;
mod spec;
use proc_macro2::Span;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ops::Range;
use std::rc::Rc;
use syn::spanned::Spanned;

pub fn rng(s: Span) -> Range<usize> {
    s.byte_range()
}
/// Verus takes a type invariant only for a struct whose fields are private, and private fields
/// only in what is itself private: nothing of the file's root module is public then.
fn hide(text: &str) -> String {
    let mut out = String::new();
    let mut inner = false;
    for line in text.split_inclusive('\n') {
        if line.starts_with("pub mod ") {
            inner = true;
        }
        if inner {
            out.push_str(line);
            if line.trim_end() == "}" {
                inner = false;
            }
            continue;
        }
        let mut l = line.replace("open spec fn", "closed spec fn");
        for w in ["fn", "proof fn", "broadcast"] {
            l = l.replace(&format!("pub {} ", w), &format!("{} ", w));
        }
        out.push_str(&l);
    }
    out
}

pub fn norm(s: &str) -> String {
    // whitespace-free token text, used for keys only
    let t: String = s.split_whitespace().collect::<Vec<_>>().join(" ");
    let mut out = String::new();
    let cs: Vec<char> = t.chars().collect();
    for (i, c) in cs.iter().enumerate() {
        if *c == ' ' {
            let p = if i > 0 { cs[i - 1] } else { ' ' };
            let n = if i + 1 < cs.len() { cs[i + 1] } else { ' ' };
            let w = |c: char| c.is_alphanumeric() || c == '_' || c == '\'';
            if w(p) && w(n) {
                out.push(' ');
            }
        } else {
            out.push(*c);
        }
    }
    out
}

#[derive(Clone)]
pub struct ImplHdr {
    pub trait_: Option<String>, // lowered text, e.g. "Add<&Node>"
    pub trait_name: Option<String>,
    pub self_ty: String, // lowered text
    pub generics: Vec<String>, // lifetimes kept
    pub tparams: Vec<String>,  // type params monomorphised to F64
    pub assoc: Vec<(String, String)>,
    pub flatten: bool,
    pub mangle: Option<String>,
    pub trait_methods: Vec<String>,
    pub in_trait_impl: bool,
}

pub struct FnSrc {
    pub key: String,
    pub file: String,
    pub src: Rc<String>,
    pub line: usize,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub hdr: Option<ImplHdr>,
    pub order: usize,
}

pub struct TypeSrc {
    pub name: String,
    pub text: String,
}

pub struct World {
    pub fns: Vec<FnSrc>,
    pub types: Vec<TypeSrc>,
    pub iconsts: BTreeMap<String, String>, // integer consts -> literal text
    pub consts: BTreeMap<String, String>, // f64 consts -> literal text
    pub notes: Vec<String>,
    pub traits: HashMap<String, (Rc<String>, syn::ItemTrait, String)>,
    pub macros: HashMap<String, (Vec<(String, String)>, String)>,
    pub spec: spec::Spec,
    pub vacuity: bool,
    pub noiso: BTreeSet<String>, // functions whose loops are verified with the facts around them
    pub loops: HashMap<String, Vec<(String, String)>>, // loops of the functions the contracts were written for
}

/// keys do not depend on lifetime names
fn strip_lt(k: &str) -> String {
    let c: Vec<char> = k.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '\'' {
            i += 1;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1; }
            if i < c.len() && c[i] == ',' { i += 1; }
            while i < c.len() && c[i] == ' ' { i += 1; }
            continue;
        }
        o.push(c[i]);
        i += 1;
    }
    o.replace("<>", "")
}

fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let s = quote::ToTokens::to_token_stream(a).to_string();
            s.contains("test")
        }
    })
}

fn parse_macro_rules(src: &str, m: &syn::ItemMacro) -> Option<(Vec<(String, String)>, String)> {
    // only: ($x: frag, $y: frag) => { body };
    let ts: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
    use proc_macro2::TokenTree as T;
    if ts.len() < 4 {
        return None;
    }
    let pat = match &ts[0] {
        T::Group(g) => g,
        _ => return None,
    };
    let body = match &ts[3] {
        T::Group(g) => g,
        _ => return None,
    };
    if ts.len() > 5 {
        return None;
    }
    let pt: Vec<T> = pat.stream().into_iter().collect();
    let mut params = vec![];
    let mut i = 0;
    while i < pt.len() {
        if i + 3 >= pt.len() + 0 && i + 3 > pt.len() {
            return None;
        }
        match (&pt.get(i), &pt.get(i + 1), &pt.get(i + 2), &pt.get(i + 3)) {
            (Some(T::Punct(d)), Some(T::Ident(n)), Some(T::Punct(c)), Some(T::Ident(f)))
                if d.as_char() == '$' && c.as_char() == ':' =>
            {
                params.push((n.to_string(), f.to_string()));
            }
            _ => return None,
        }
        i += 4;
        if let Some(T::Punct(c)) = pt.get(i) {
            if c.as_char() == ',' {
                i += 1;
            }
        }
    }
    let r = rng(body.span());
    Some((params, src[r.start + 1..r.end - 1].to_string()))
}

fn split_args(src: &str, ts: proc_macro2::TokenStream) -> Vec<String> {
    let mut out = vec![];
    let mut cur: Option<Range<usize>> = None;
    let mut depth = 0i32;
    for t in ts {
        if let proc_macro2::TokenTree::Punct(p) = &t {
            if p.as_char() == '<' {
                depth += 1
            }
            if p.as_char() == '>' {
                depth -= 1
            }
            if p.as_char() == ',' && depth == 0 {
                if let Some(r) = cur.take() {
                    out.push(src[r].to_string());
                }
                continue;
            }
        }
        let r = rng(t.span());
        cur = Some(match cur {
            None => r,
            Some(c) => c.start..r.end,
        });
    }
    if let Some(r) = cur {
        out.push(src[r].to_string());
    }
    out
}

fn subst(body: &str, params: &[(String, String)], args: &[String]) -> String {
    let mut out = String::new();
    let b: Vec<char> = body.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '$' {
            let mut j = i + 1;
            let mut id = String::new();
            while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') {
                id.push(b[j]);
                j += 1;
            }
            if let Some(k) = params.iter().position(|p| p.0 == id) {
                out.push_str(&args[k]);
                i = j;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    out
}

impl World {
    fn lower_ty_text(&self, src: &str, ty: &syn::Type, tparams: &[String]) -> String {
        lower::lower_type_standalone(src, ty, tparams, self)
    }

    fn add_file(&mut self, path: &str, src: String) {
        let src = Rc::new(src);
        let file = match syn::parse_file(&src) {
            Ok(f) => f,
            Err(e) => {
                self.notes.push(format!("parse error in {}: {}", path, e));
                return;
            }
        };
        if file.attrs.iter().any(|a| is_cfg_test(std::slice::from_ref(a))) {
            return;
        }
        self.add_items(path, src, &file.items);
    }

    fn add_items(&mut self, path: &str, src: Rc<String>, items: &[syn::Item]) {
        for it in items {
            match it {
                syn::Item::Macro(m) => {
                    if let Some(id) = &m.ident {
                        if let Some(r) = parse_macro_rules(&src, m) {
                            self.macros.insert(id.to_string(), r);
                        }
                    } else {
                        let name = norm(&quote::ToTokens::to_token_stream(&m.mac.path).to_string());
                        if let Some((params, body)) = self.macros.get(&name).cloned() {
                            let args = split_args(&src, m.mac.tokens.clone());
                            if args.len() == params.len() {
                                let text = subst(&body, &params, &args);
                                self.add_file(path, text);
                            } else {
                                self.notes.push(format!("macro {} arity", name));
                            }
                        } else {
                            self.notes.push(format!("macro {}! not expanded in {}", name, path));
                        }
                    }
                }
                syn::Item::Mod(m) => {
                    if is_cfg_test(&m.attrs) {
                        continue;
                    }
                    if let Some((_, its)) = &m.content {
                        self.add_items(path, src.clone(), its);
                    }
                }
                syn::Item::Trait(t) => {
                    self.traits
                        .insert(t.ident.to_string(), (src.clone(), t.clone(), path.to_string()));
                }
                syn::Item::Const(c) => {
                    let ty = norm(&src[rng(c.ty.span())]);
                    if ty == "f64" {
                        self.consts.insert(
                            c.ident.to_string(),
                            src[rng(c.expr.span())].to_string(),
                        );
                    } else if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(_), .. }) = &*c.expr {
                        self.iconsts.insert(c.ident.to_string(), src[rng(c.expr.span())].to_string());
                    } else {
                        self.notes.push(format!("const {} dropped", c.ident));
                    }
                }
                syn::Item::Struct(s) => self.add_struct(path, &src, s),
                syn::Item::Enum(e) => self.add_enum(&src, e),
                syn::Item::Fn(f) => {
                    if is_cfg_test(&f.attrs) {
                        continue;
                    }
                    let order = self.fns.len();
                    self.fns.push(FnSrc {
                        key: f.sig.ident.to_string(),
                        file: path.into(),
                        line: f.sig.ident.span().start().line,
                        src: src.clone(),
                        sig: f.sig.clone(),
                        block: (*f.block).clone(),
                        hdr: None,
                        order,
                    });
                }
                syn::Item::Impl(i) => {
                    if is_cfg_test(&i.attrs) {
                        continue;
                    }
                    self.add_impl(path, &src, i)
                }
                _ => {}
            }
        }
    }

    fn add_struct(&mut self, path: &str, src: &str, s: &syn::ItemStruct) {
        let name = s.ident.to_string();
        if self.spec.skip_types.contains(&name) {
            return;
        }
        let tparams: Vec<String> = s
            .generics
            .type_params()
            .map(|t| t.ident.to_string())
            .collect();
        let lts: Vec<String> = s
            .generics
            .lifetimes()
            .map(|l| l.lifetime.to_string())
            .collect();
        let g = if lts.is_empty() {
            String::new()
        } else {
            format!("<{}>", lts.join(", "))
        };
        let mut t = String::new();
        t.push_str(&format!("// {}\n", path));
        let private = self.spec.private.contains(&name);
        let fields: Vec<String> = s
            .fields
            .iter()
            .map(|f| {
                let ty = self.lower_ty_text(src, &f.ty, &tparams);
                match &f.ident {
                    Some(i) if private => format!("    {}: {},\n", i, ty),
                    Some(i) => format!("    pub {}: {},\n", i, ty),
                    None => format!("pub {}", ty),
                }
            })
            .collect();
        match &s.fields {
            syn::Fields::Named(_) => {
                t.push_str(&format!("pub struct {}{} {{\n{}", name, g, fields.join("")));
                if self.spec.id_structs.contains(&name) {
                    t.push_str(if private { "    id: Ghost<int>,\n" } else { "    pub id: Ghost<int>,\n" });
                }
                t.push_str("}\n");
            }
            syn::Fields::Unnamed(_) => {
                t.push_str(&format!("pub struct {}{}({});\n", name, g, fields.join(", ")));
            }
            _ => t.push_str(&format!("pub struct {};\n", name)),
        }
        self.types.push(TypeSrc { name, text: t });
    }

    fn add_enum(&mut self, src: &str, e: &syn::ItemEnum) {
        let name = e.ident.to_string();
        if self.spec.skip_types.contains(&name) {
            return;
        }
        let mut t = format!("pub enum {} {{\n", name);
        for v in &e.variants {
            let fs: Vec<String> = v
                .fields
                .iter()
                .map(|f| self.lower_ty_text(src, &f.ty, &[]))
                .collect();
            match &v.fields {
                syn::Fields::Unit => t.push_str(&format!("    {},\n", v.ident)),
                syn::Fields::Unnamed(_) => {
                    t.push_str(&format!("    {}({}),\n", v.ident, fs.join(", ")))
                }
                syn::Fields::Named(n) => {
                    let fs: Vec<String> = n
                        .named
                        .iter()
                        .zip(fs.iter())
                        .map(|(f, t)| format!("{}: {}", f.ident.as_ref().unwrap(), t))
                        .collect();
                    t.push_str(&format!("    {} {{ {} }},\n", v.ident, fs.join(", ")))
                }
            }
        }
        t.push_str("}\n");
        self.types.push(TypeSrc { name, text: t });
    }

    fn add_impl(&mut self, path: &str, src: &Rc<String>, i: &syn::ItemImpl) {
        let tparams: Vec<String> = i
            .generics
            .type_params()
            .map(|t| t.ident.to_string())
            .collect();
        let generics: Vec<String> = i
            .generics
            .lifetimes()
            .map(|l| l.lifetime.to_string())
            .collect();
        let self_ty = self.lower_ty_text(src, &i.self_ty, &tparams);
        let raw_self = norm(&src[rng(i.self_ty.span())]);
        let mut trait_ = None;
        let mut trait_name = None;
        let mut trait_args_raw: Vec<String> = vec![];
        if let Some((_, p, _)) = &i.trait_ {
            let last = p.segments.last().unwrap();
            let nm = last.ident.to_string();
            let mut txt = nm.clone();
            if let syn::PathArguments::AngleBracketed(a) = &last.arguments {
                let mut l = vec![];
                for x in &a.args {
                    if let syn::GenericArgument::Type(t) = x {
                        l.push(self.lower_ty_text(src, t, &tparams));
                        trait_args_raw.push(norm(&src[rng(t.span())]));
                    }
                }
                txt = format!("{}<{}>", nm, l.join(", "));
            }
            trait_ = Some(txt);
            trait_name = Some(nm);
        }
        if let Some(n) = &trait_name {
            if self.spec.skip_traits.contains(n) {
                return;
            }
        }
        let local = trait_name
            .as_ref()
            .map(|n| self.spec.flatten_traits.contains(n))
            .unwrap_or(false);
        let mangle = if local && !trait_args_raw.is_empty() {
            Some(
                trait_args_raw
                    .join("_")
                    .replace("&", "ref_")
                    .replace("<", "_")
                    .replace(">", "_"),
            )
        } else {
            None
        };
        let base_self = raw_self.split('<').next().unwrap().to_string();
        let mut assoc = vec![];
        for it in &i.items {
            if let syn::ImplItem::Type(t) = it {
                assoc.push((
                    t.ident.to_string(),
                    self.lower_ty_text(src, &t.ty, &tparams),
                ));
            }
        }
        let mut hdr = ImplHdr {
            trait_: trait_.clone(),
            trait_name: trait_name.clone(),
            self_ty,
            generics,
            tparams,
            assoc,
            flatten: local,
            mangle: mangle.clone(),
            trait_methods: vec![],
            in_trait_impl: trait_.is_some(),
        };
        if local && mangle.is_some() {
            if let Some((_, t, _)) = self.traits.get(trait_name.as_ref().unwrap()) {
                for it in &t.items {
                    if let syn::TraitItem::Fn(f) = it {
                        hdr.trait_methods.push(f.sig.ident.to_string());
                    }
                }
            }
        }
        let mkkey = |m: &str| -> String { strip_lt(&{
            match (&trait_, local) {
                (None, _) => format!("{}::{}", base_self, m),
                (Some(_), true) => {
                    if trait_args_raw.is_empty() {
                        format!("{}::{}", base_self, m)
                    } else {
                        format!("{}::{}<{}>", base_self, m, trait_args_raw.join(","))
                    }
                }
                (Some(_), false) => {
                    let n = trait_name.clone().unwrap();
                    if trait_args_raw.is_empty() {
                        format!("{} for {}::{}", n, raw_self, m)
                    } else {
                        format!("{}<{}> for {}::{}", n, trait_args_raw.join(","), raw_self, m)
                    }
                }
            }
        }) };
        let mut have = BTreeSet::new();
        for it in &i.items {
            if let syn::ImplItem::Fn(f) = it {
                let m = f.sig.ident.to_string();
                have.insert(m.clone());
                let order = self.fns.len();
                self.fns.push(FnSrc {
                    key: mkkey(&m),
                    file: path.into(),
                    line: f.sig.ident.span().start().line,
                    src: src.clone(),
                    sig: f.sig.clone(),
                    block: f.block.clone(),
                    hdr: Some(hdr.clone()),
                    order,
                });
            }
        }
        // default methods of local traits: one copy per implementing type
        if local {
            if let Some((tsrc, t, tpath)) = self.traits.get(trait_name.as_ref().unwrap()).cloned() {
                let targ: Vec<String> = t
                    .generics
                    .type_params()
                    .map(|x| x.ident.to_string())
                    .collect();
                for it in &t.items {
                    if let syn::TraitItem::Fn(f) = it {
                        let m = f.sig.ident.to_string();
                        if have.contains(&m) {
                            continue;
                        }
                        let mut h = hdr.clone();
                        h.tparams = vec![];
                        // substitute the trait's type parameter textually
                        if let Some(b) = &f.default {
                            if targ.is_empty() {
                                let order = self.fns.len();
                                self.fns.push(FnSrc {
                                    key: mkkey(&m),
                                    file: tpath.clone(),
                                    line: f.sig.ident.span().start().line,
                                    src: tsrc.clone(),
                                    sig: f.sig.clone(),
                                    block: b.clone(),
                                    hdr: Some(h),
                                    order,
                                });
                            } else {
                                // re-parse with the argument substituted
                                let text = tsrc[rng(f.sig.span()).start..rng(b.span()).end].to_string();
                                let r0 = rng(f.sig.span()).start;
                                let mut edits: Vec<(Range<usize>, String)> = vec![];
                                struct V<'a> {
                                    targ: &'a [String],
                                    args: &'a [String],
                                    e: Vec<(Range<usize>, String)>,
                                }
                                impl<'a> syn::visit::Visit<'a> for V<'a> {
                                    fn visit_path(&mut self, p: &'a syn::Path) {
                                        if p.segments.len() == 1 {
                                            let s = p.segments[0].ident.to_string();
                                            if let Some(k) = self.targ.iter().position(|x| *x == s) {
                                                self.e.push((rng(p.span()), self.args[k].clone()));
                                            }
                                        }
                                        syn::visit::visit_path(self, p);
                                    }
                                }
                                let mut v = V {
                                    targ: &targ,
                                    args: &trait_args_raw,
                                    e: vec![],
                                };
                                syn::visit::Visit::visit_signature(&mut v, &f.sig);
                                syn::visit::Visit::visit_block(&mut v, b);
                                edits.append(&mut v.e);
                                edits.sort_by_key(|x| x.0.start);
                                let mut out = String::new();
                                let mut pos = 0;
                                for (r, t) in edits {
                                    out.push_str(&text[pos..r.start - r0]);
                                    out.push_str(&t);
                                    pos = r.end - r0;
                                }
                                out.push_str(&text[pos..]);
                                let nsrc = Rc::new(out);
                                if let Ok(ff) = syn::parse_str::<syn::ImplItemFn>(&nsrc) {
                                    let order = self.fns.len();
                                    self.fns.push(FnSrc {
                                        key: mkkey(&m),
                                        file: tpath.clone(),
                                        line: f.sig.ident.span().start().line,
                                        src: nsrc.clone(),
                                        sig: ff.sig.clone(),
                                        block: ff.block.clone(),
                                        hdr: Some(h),
                                        order,
                                    });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

fn collect_files(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let mut es: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            collect_files(&p, out);
        } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
            out.push(p);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| -> Option<String> {
        args.iter().position(|a| a == n).map(|i| args[i + 1].clone())
    };
    let repo = get("--repo").unwrap_or("/repo".into());
        let out = get("--out").expect("--out");
    let json = get("--json").expect("--json");
    let list = |s: Option<String>| -> Vec<String> {
        match s {
            None => vec![],
            Some(s) => {
                let s = if let Some(f) = s.strip_prefix('@') {
                    std::fs::read_to_string(f).unwrap()
                } else {
                    s.replace(";;", "\n")
                };
                s.lines().map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect()
            }
        }
    };
    let verify: BTreeSet<String> = list(get("--verify")).into_iter().collect();
    let exclude: BTreeSet<String> = list(get("--exclude")).into_iter().collect();
    let dropped: BTreeSet<String> = list(get("--drop")).into_iter().collect();
    let vacuity = get("--vacuity").is_some();
    let preludes = list(get("--prelude"));

    let specfiles = list(get("--spec"));
    let spec = spec::Spec::load(&specfiles);
    let mut w = World {
        fns: vec![],
        types: vec![],
        consts: BTreeMap::new(),
        iconsts: BTreeMap::new(),
        notes: vec![],
        traits: HashMap::new(),
        macros: HashMap::new(),
        spec,
        vacuity,
        noiso: list(get("--noiso")).into_iter().collect(),
        loops: HashMap::new(),
    };
    if let Some(p) = get("--loops") {
        if let Ok(t) = std::fs::read_to_string(p) {
            let v: serde_json::Value = serde_json::from_str(&t).unwrap();
            for (k, l) in v.as_object().unwrap() {
                let s = |x: &serde_json::Value| x.as_str().unwrap().to_string();
                w.loops.insert(k.clone(), l.as_array().unwrap().iter().map(|x| (s(&x[0]), s(&x[1]))).collect());
            }
        }
    }
    let mut files = vec![];
    collect_files(&std::path::Path::new(&repo).join("src"), &mut files);
    // traits first (default methods are copied into impls)
    let mut texts = vec![];
    for f in &files {
        let rel = f.strip_prefix(&repo).unwrap().to_string_lossy().to_string();
        if w.spec.skip_files.iter().any(|s| rel.ends_with(s)) {
            continue;
        }
        let t = std::fs::read_to_string(f).unwrap();
        if let Ok(p) = syn::parse_file(&t) {
            let rc = Rc::new(t.clone());
            for it in &p.items {
                if let syn::Item::Trait(tr) = it {
                    w.traits.insert(tr.ident.to_string(), (rc.clone(), tr.clone(), rel.clone()));
                }
                if let syn::Item::Const(c) = it {
                    if norm(&rc[rng(c.ty.span())]) == "f64" {
                        w.consts.insert(c.ident.to_string(), rc[rng(c.expr.span())].to_string());
                    }
                }
            }
        }
        texts.push((rel, t));
    }
    for (rel, t) in texts {
        w.add_file(&rel, t);
    }
    inline::run(&mut w);

    // emit
    let mut pre = String::new();
    for p in &preludes {
        pre.push_str(&std::fs::read_to_string(p).unwrap());
        pre.push('\n');
    }
    let mut o = String::new();
    let mut fnjson = vec![];
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    let mut keys_present = BTreeSet::new();
    let mut dups: Vec<String> = vec![];
    // traits kept as trait impls need all their methods in one impl; we emit one impl per fn
    for f in &w.fns {
        let n = seen.entry(f.key.clone()).or_insert(0);
        *n += 1;
        if *n > 1 {
            dups.push(format!("{} at {}:{}", f.key, f.file, f.line));
            continue;
        }
        // the function and its contract variants (`KEY!VARIANT`)
        let pre = format!("{}!", f.key);
        let mut variants = vec![(f.key.clone(), String::new())];
        variants.extend(w.spec.fns.keys().filter(|k| k.starts_with(&pre)).map(|k| (k.clone(), k[pre.len()..].to_string())));
        for (key, variant) in variants {
        keys_present.insert(key.clone());
        let sp = w.spec.fns.get(&key);
        let want = verify.contains(&key);
        let mut status = "omitted";
        let mut err: Option<String> = None;
        let start = o.matches('\n').count() + 1;
        let mut loops = 0;
        let mut callees: Vec<String> = vec![];
        lower::FPS.with(|x| x.borrow_mut().clear());
        let mut fps = vec![];
        if dropped.contains(&key) {
            status = if want { "undecided" } else { "omitted" };
            err = Some("left out together with its contract".into());
        } else if let Some(sp) = sp {
            if want && !exclude.contains(&key) {
                match lower::emit_fn(&w, f, Some(sp), false, &variant) {
                    Ok(r) => {
                        o.push_str(&r.text);
                        loops = r.loops;
                        callees = r.callees;
                        status = "verify";
                        fps = lower::FPS.with(|x| x.borrow().clone());
                    }
                    Err(e) => {
                        err = Some(e);
                    }
                }
            }
            if status == "omitted" {
                match lower::emit_fn(&w, f, Some(sp), true, &variant) {
                    Ok(r) => {
                        o.push_str(&r.text);
                        status = if want { "undecided" } else { "assumed" };
                    }
                    Err(e) => err = Some(e),
                }
            }
        } else if want {
            err = Some("no contract".into());
        }
        let end = o.matches('\n').count();
        fnjson.push(serde_json::json!({
            "key": key, "file": f.file, "line": f.line, "status": status, "error": err,
            "gen_start": start, "gen_end": end, "loops": loops, "has_spec": sp.is_some(), "callees": callees, "loop_texts": fps,
        }));
        }
    }
    // only the types the emitted code and theory mention
    let mut post = String::new();
    for p in list(get("--postlude")) {
        post.push_str(&std::fs::read_to_string(&p).unwrap());
        post.push('\n');
    }
    let words = |s: &str| -> BTreeSet<String> {
        s.split(|c: char| !(c.is_alphanumeric() || c == '_')).map(|x| x.to_string()).collect()
    };
    let mut need = words(&o);
    need.extend(words(&pre));
    need.extend(words(&post));
    let mut done: BTreeSet<String> = BTreeSet::new();
    loop {
        let mut ch = false;
        for t in &w.types {
            if need.contains(&t.name) && done.insert(t.name.clone()) {
                need.extend(words(&t.text));
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let mut h = pre;
    h.push_str("verus! {\n");
    for t in &w.types {
        if done.contains(&t.name) {
            h.push_str(&t.text);
        }
    }
    for (n, e) in &w.consts {
        if !need.contains(&format!("const_{}", n)) && !need.contains(&format!("spec_const_{}", n)) {
            continue;
        }
        match lower::real_lit(e) {
            Some(v) => {
                h.push_str(&format!(
                    "pub open spec fn spec_const_{}() -> real {{ {} }}\n#[verifier::external_body] pub fn const_{}() -> (r: F64) ensures r.v@ == FV::R(spec_const_{}()) {{ unimplemented!() }}\n",
                    n, v, n, n
                ));
            }
            None => w.notes.push(format!("const {} not a literal", n)),
        }
    }
    let off = h.matches('\n').count();
    for j in fnjson.iter_mut() {
        for k in ["gen_start", "gen_end"] {
            let v = j[k].as_u64().unwrap() + off as u64;
            j[k] = serde_json::json!(v);
        }
    }
    let mut o = format!("{}{}", h, o);
    o.push_str("} // verus!\n");
    for p in list(get("--postlude")) {
        o.push_str(&std::fs::read_to_string(&p).unwrap());
        o.push('\n');
    }
    o.push_str("fn main() {}\n");
    if w.types.iter().any(|t| done.contains(&t.name) && w.spec.private.contains(&t.name)) {
        o = hide(&o);
    }
    std::fs::write(&out, &o).unwrap();
    let missing: Vec<&String> = verify.iter().filter(|k| !keys_present.contains(*k)).collect();
    let specless: Vec<&String> = w.spec.fns.keys().filter(|k| !keys_present.contains(*k)).collect();
    std::fs::write(
        &json,
        serde_json::to_string_pretty(&serde_json::json!({
            "fns": fnjson, "missing": missing, "spec_without_source": specless, "duplicate_keys": dups, "notes": w.notes,
        }))
        .unwrap(),
    )
    .unwrap();
}
