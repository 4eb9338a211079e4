//! Spec files: contracts keyed by function, loop invariants keyed by loop ordinal.
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Default, Clone)]
pub struct FnSpec {
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub contract: String,
    pub loops: HashMap<usize, LoopSpec>,
    pub nloops: Option<usize>,
    pub at: Vec<(String, String)>, // anchor, text
    pub closures: HashMap<usize, String>,
    pub lifts: HashMap<usize, Lift>, // evaluation closures verified as functions of their own
    pub subst: Vec<(String, String)>, // library-call rewrites: exact source text -> text
    pub inherent: bool,               // trait method emitted as an inherent method
    pub req: Option<String>,          // precondition of an operator impl
    pub opaque: bool,                 // never verified (trusted contract)
    pub sig: Option<String>,
    pub extra: String,
}
#[derive(Default, Clone)]
pub struct Lift {
    pub opaque: bool, // nothing is said about the function object
    pub caps: Vec<(String, String)>,
    pub pre: String,
    pub post: String,
}
#[derive(Default, Clone)]
pub struct LoopSpec {
    pub mode: String,
    pub inv: String,
}
#[derive(Default)]
pub struct Spec {
    pub fns: BTreeMap<String, FnSpec>,
    pub id_structs: BTreeSet<String>,
    pub skip_types: BTreeSet<String>,
    pub private: BTreeSet<String>,
    pub skip_traits: BTreeSet<String>,
    pub flatten_traits: BTreeSet<String>,
    pub skip_files: Vec<String>,
    pub tymap: BTreeMap<String, String>,
    pub method_map: BTreeMap<String, String>, // method name -> free fn (receiver first)
    pub path_map: BTreeMap<String, String>,   // expression path -> path
    pub fnparams: BTreeMap<String, String>, // function -> extra parameters
    pub callargs: BTreeMap<String, String>, // called name -> extra arguments
    pub opcalls: Vec<String>,
    pub world: BTreeSet<String>, // functions that act on the world outside (files, processes)
    pub strs: bool, // comparisons with string literals
    pub texts: BTreeMap<String, i32>, // vocabulary of written text, lower case
    pub mono: BTreeSet<String>,               // generic structs monomorphised to F64
}

impl Spec {
    pub fn load(files: &[String]) -> Spec {
        let mut s = Spec::default();
        for p in files {
            s.load_file(&std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{}: {}", p, e)));
        }
        s
    }
    fn load_file(&mut self, t: &str) {
        let mut keys: Vec<String> = vec![];
        let mut section = String::new();
        let mut buf = String::new();
        let mut defs: HashMap<String, String> = HashMap::new();
        let mut flush = |this: &mut Spec, keys: &Vec<String>, section: &str, buf: &mut String| {
            let text = std::mem::take(buf);
            if section.is_empty() {
                return;
            }
            if let Some(n) = section.strip_prefix("define ") {
                defs.insert(n.trim().to_string(), text);
                return;
            }
            let mut text = text;
            for (k, v) in defs.iter() {
                text = text.replace(&format!("${}$", k), v);
            }
            for k in keys {
                let f = this.fns.entry(k.clone()).or_default();
                if section == "fn" {
                    for line in text.lines() {
                        let l = line.trim();
                        if let Some(r) = l.strip_prefix("ret ") {
                            f.ret = Some(r.trim().to_string());
                        } else if let Some(r) = l.strip_prefix("loops ") {
                            f.nloops = Some(r.trim().parse().unwrap());
                        } else if l == "inherent" {
                            f.inherent = true;
                        } else if let Some(r) = l.strip_prefix("req ") {
                            f.req = Some(r.trim().to_string());
                        } else if l == "opaque" {
                            f.opaque = true;
                        } else if l.starts_with("#[") {
                            f.attrs.push(l.to_string());
                        } else {
                            f.contract.push_str(line);
                            f.contract.push('\n');
                        }
                    }
                } else if let Some(r) = section.strip_prefix("loop ") {
                    let mut it = r.trim().splitn(2, ' ');
                    let n: usize = it.next().unwrap().parse().unwrap();
                    let mode = it.next().unwrap_or("").trim().to_string();
                    f.loops.insert(n, LoopSpec { mode, inv: text.clone() });
                } else if let Some(r) = section.strip_prefix("at ") {
                    f.at.push((r.trim().to_string(), text.clone()));
                } else if let Some(r) = section.strip_prefix("closure ") {
                    f.closures.insert(r.trim().parse().unwrap(), text.trim().to_string());
                } else if let Some(r) = section.strip_prefix("lift ") {
                    let mut l = Lift::default();
                    for line in text.lines() {
                        let t = line.trim();
                        if let Some(c) = t.strip_prefix("cap ") {
                            let (a, b) = c.split_once(':').unwrap();
                            l.caps.push((a.trim().into(), b.trim().into()));
                        } else if t == "opaque" {
                            l.opaque = true;
                        } else if let Some(c) = t.strip_prefix("pre ") {
                            l.pre = c.into();
                        } else if let Some(c) = t.strip_prefix("post ") {
                            l.post = c.into();
                        }
                    }
                    f.lifts.insert(r.trim().parse().unwrap(), l);
                } else if section == "subst" {
                    // lines:  A ==> B
                    for l in text.lines() {
                        if let Some((a, b)) = l.split_once("==>") {
                            f.subst.push((a.trim().to_string(), b.trim().to_string()));
                        }
                    }
                } else if section == "sig" {
                    f.sig = Some(text.trim().to_string());
                } else if section == "extra" {
                    f.extra.push_str(&text);
                } else {
                    panic!("bad section {}", section);
                }
            }
        };
        for line in t.lines() {
            if line.starts_with("//") {
                continue;
            }
            if let Some(h) = line.strip_prefix("== ") {
                flush(self, &keys, &section, &mut buf);
                let h = h.trim();
                if let Some(k) = h.strip_prefix("fn ") {
                    keys = k.split(" | ").map(|x| x.trim().to_string()).collect();
                    section = "fn".into();
                } else if let Some(c) = h.strip_prefix("config ") {
                    let mut it = c.splitn(2, ' ');
                    let what = it.next().unwrap();
                    let rest: Vec<String> =
                        it.next().unwrap_or("").split_whitespace().map(|x| x.to_string()).collect();
                    match what {
                        "id_structs" => self.id_structs.extend(rest),
                        "private" => self.private.extend(rest),
                        "skip_types" => self.skip_types.extend(rest),
                        "skip_traits" => self.skip_traits.extend(rest),
                        "flatten" => self.flatten_traits.extend(rest),
                        "skip_files" => self.skip_files.extend(rest),
                        "mono" => self.mono.extend(rest),
                        "type" => {
                            self.tymap.insert(rest[0].clone(), rest[1..].join(" "));
                        }
                        "method" => {
                            self.method_map.insert(rest[0].clone(), rest[1].clone());
                        }
                        "world" => {
                            for w in &rest {
                                self.fnparams.insert(w.clone(), "__w: &mut RtWorld".into());
                                self.callargs.insert(w.clone(), "__w".into());
                            }
                            self.world.extend(rest);
                        }
                        "fnparam" => {
                            self.fnparams.insert(rest[0].clone(), rest[1..].join(" "));
                        }
                        "callarg" => {
                            self.callargs.insert(rest[0].clone(), rest[1..].join(" "));
                        }
                        "opcall" => self.opcalls.extend(rest),
                        "strings" => self.strs = true,
                        "text" => {
                            for w in &rest[1..] {
                                self.texts.insert(w.clone(), rest[0].parse().unwrap());
                            }
                        }
                        "path" => {
                            self.path_map.insert(rest[0].clone(), rest[1..].join(" "));
                        }
                        _ => panic!("bad config {}", what),
                    }
                    section = String::new();
                    keys = vec![];
                } else {
                    section = h.to_string();
                }
                continue;
            }
            buf.push_str(line);
            buf.push('\n');
        }
        flush(self, &keys, &section, &mut buf);
    }
}
