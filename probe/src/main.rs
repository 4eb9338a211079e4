//! Concrete search on the real numopt crate, one generator and oracle per property.
//! It replays failed proof obligations on the running code and stands in, labelled
//! bounded, where a function is outside the verifier's reach.
mod util;
mod expr;
mod matrix;
mod nodes;
mod problems;
mod lpfile;
mod solvers;
mod ipopt;
mod models;
mod show;

use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::{Seek, Write};
use std::time::{Duration, Instant};
use util::{Ctx, R};

type Case = fn(&mut Ctx) -> R;

/// property, cases, largest size, rule
fn table(id: &str) -> Option<(Vec<(&'static str, Case)>, usize, &'static str)> {
    Some(match id {
        "M01" => (vec![("to_csr", matrix::m01 as Case)], 12, "random coordinate matrices (shapes from 0x0, duplicates, explicit zeros, empty rows), compared entry by entry with a row-wise reference; nontrivial: at least 2 entries"),
        "M02" => (vec![("sum_duplicates", matrix::m02 as Case)], 12, "random row-compressed matrices with repeated columns, compared with a per-row first-occurrence reference, applied twice; nontrivial: at least one duplicate"),
        "M03" => (vec![("coo", matrix::m03 as Case)], 12, "random coordinate matrices and vectors: accessors, two iterations, product, rejected lengths; nontrivial: at least one entry"),
        "P04" => (vec![("objects", problems::p04 as Case)], 8, "random LP/MILP/NLP/MINLP data in all views, sequences of evaluations, inconsistent dimensions; nontrivial: at least one variable"),
        "P05" => (vec![("combine", problems::p05 as Case)], 7, "random Hessian patterns and sequences of evaluations and combinations; nontrivial: at least one Hessian entry"),
        "P06" => (vec![("lpfile", lpfile::p06 as Case)], 8, "random LP/MILP data written and parsed back with an independent LP reader; nontrivial: at least one row and variable"),
        "S07" => (vec![("params", solvers::s07 as Case)], 10, "random sequences of parameter reads and writes on the Cbc, Clp and Ipopt interfaces and on a custom solver; nontrivial: at least one accepted and one refused write"),
        "S08" => (vec![("solfile", solvers::s08 as Case)], 8, "random well-formed, corrupted, truncated and foreign solution files in both formats; nontrivial: at least one line after the status"),
        "S09" => (vec![("cmd", solvers::s09 as Case)], 6, "Cbc/Clp interface run on stand-in solver programs that record their input and succeed, fail, write nothing or garbage; every case counts"),
        "S10" => (vec![("callbacks", ipopt::s10 as Case)], 6, "Ipopt callbacks captured through a stand-in libipopt and driven with random request sequences; nontrivial: at least 2 requests"),
        "S11" => (vec![("results", ipopt::s11 as Case)], 6, "Ipopt interface run on a stand-in libipopt with scripted results and failures; every case counts"),
        "N12" => (vec![("ops", nodes::n12 as Case)], 10, "random operator applications on pools of shared expressions and numbers in all ownership combinations; nontrivial: at least 3 operators"),
        "N13" => (vec![("eval", nodes::n13 as Case)], 10, "random expressions from the function constructors, with partial and superfluous assignments; nontrivial: at least 2 functions"),
        "N14" => (vec![("diff", nodes::n14 as Case)], 7, "random shared expressions and their first to third derivatives against symbolic differentiation of a reference tree; nontrivial: a variable occurs"),
        "N15" => (vec![("affine", nodes::n15 as Case)], 10, "random expressions: coefficient keys against the variables reached, affine form against values at random points; nontrivial: a variable occurs"),
        "N16" => (vec![("std", nodes::n16 as Case)], 7, "random expressions: gradient and Hessian entries against symbolic differentiation of a reference tree; nontrivial: a variable occurs"),
        "N17" => (vec![("ident", nodes::n17 as Case)], 10, "random constructions and clone chains of expressions and constraints, all pairs compared, hashed and looked up; nontrivial: at least 3 handles"),
        "C18" => (vec![("cmp", nodes::c18 as Case)], 8, "random operand pairs in all supported forms, kinds and tags, violation at random points; every case counts"),
        "C19" => (vec![("cstd", models::c19 as Case)], 7, "random constraints transformed to standard form, satisfaction compared at random points; every case counts"),
        "Q20" => (vec![("stdprob", models::q20 as Case)], 6, "random models transformed to standard problems and checked against the model; nontrivial: at least one constraint"),
        "Q21" => (vec![("stdeval", models::q21 as Case)], 6, "random nonlinear models evaluated in sequences against values of the model expressions; nontrivial: a nonlinear part"),
        "Q22" => (vec![("solve", models::q22 as Case)], 6, "random models solved in sequences by a scripted solver (also failing); nontrivial: at least one constraint"),
        "D23" => (vec![("display", show::d23 as Case)], 8, "random expressions from operators and constructors and constraints over them, printed, read back with the usual precedence by an independent parser and compared at random points; printing to places that stop taking text; nontrivial: a function is printed"),
        "N23" => (vec![("model", show::n23 as Case)], 8, "random models with and without objective, constraints and labels, printed and compared line by line, expressions read back by an independent parser; printing to places that stop taking text; nontrivial: at least two constraints"),
        _ => return None,
    })
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local! { static PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

fn run(case: Case, seed: u64, size: usize) -> (Ctx, Option<String>) {
    let mut c = Ctx::new(seed, size);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| case(&mut c)));
    match r {
        Ok(Ok(())) => (c, None),
        Ok(Err(m)) => (c, Some(m)),
        Err(_) => {
            let m = PANIC.with(|p| p.borrow().clone());
            (c, Some(format!("panic: {}", m)))
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 { eprintln!("probe ID [--seed S] [--secs T] [--max N] [--out F] [--case NAME --at SEED --size N]"); std::process::exit(2); }
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let id = a[1].clone();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(5.);
    let max: u64 = get("--max").and_then(|s| s.parse().ok()).unwrap_or(20000);
    let (cases, maxsize, rule) = match table(&id) { Some(t) => t, None => { eprintln!("unknown {}", id); std::process::exit(2) } };
    std::panic::set_hook(Box::new(|i| { PANIC.with(|p| *p.borrow_mut() = i.to_string()); }));

    // replay of one case
    if let Some(at) = get("--at") {
        let name = get("--case").unwrap_or_default();
        let size: usize = get("--size").and_then(|s| s.parse().ok()).unwrap_or(5);
        let case = cases.iter().find(|c| c.0 == name).or(cases.first()).unwrap().1;
        let (c, e) = run(case, at.parse().unwrap(), size);
        println!("{}", c.log);
        util::clean();
        match e {
            Some(m) => { println!("FAILS: {}", m); std::process::exit(1) }
            None => { println!("holds"); std::process::exit(0) }
        }
    }

    let mut trace = get("--trace").map(|f| std::fs::File::create(f).unwrap());
    let t0 = Instant::now();
    let lim = Duration::from_secs_f64(secs);
    let mut evals: u64 = 0;
    let mut seen: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut found: Option<(String, u64, usize, String, String)> = None;
    'all: for i in 0..max {
        for (name, case) in cases.iter() {
            // sizes ramp up so that the first failure tends to be a small one
            let size = 1 + ((i as usize / 12) % maxsize);
            let s = seed.wrapping_mul(1_000_003).wrapping_add(i);
            if let Some(f) = trace.as_mut() {
                // for the driver, should the code under test abort or not return
                let _ = f.seek(std::io::SeekFrom::Start(0));
                let _ = write!(f, "{:<30} {:>22} {:>6}\n", name, s, size);
            }
            let (c, e) = run(*case, s, size);
            evals += 1;
            if c.nontrivial {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                c.log.hash(&mut h);
                seen.insert(h.finish());
                if samples.len() < 4 && size >= 3 && i % 7 == 3 {
                    samples.push(c.log.chars().take(400).collect());
                }
            }
            if let Some(m) = e {
                found = Some((name.to_string(), s, size, m, c.log));
                // look for a smaller case
                let mut sz = 1;
                while sz < size {
                    let mut hit = false;
                    for k in 0..150u64 {
                        if t0.elapsed() > lim * 2 { break; }
                        let s2 = seed.wrapping_mul(7_000_003).wrapping_add(k + 1000 * sz as u64);
                        let (c2, e2) = run(*case, s2, sz);
                        evals += 1;
                        if let Some(m2) = e2 { found = Some((name.to_string(), s2, sz, m2, c2.log)); hit = true; break; }
                    }
                    if hit { break; }
                    sz += 1;
                }
                break 'all;
            }
        }
        if t0.elapsed() > lim { break; }
    }
    let mut o = String::new();
    o.push_str(&format!("{{\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"wall_s\":{:.3},\"samples\":[{}]",
        esc(&id), seed, evals, seen.len(), esc(rule), t0.elapsed().as_secs_f64(),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")));
    match &found {
        Some((n, s, z, m, l)) => o.push_str(&format!(",\"violation\":{{\"case\":{},\"at\":{},\"size\":{},\"message\":{},\"log\":{}}}", esc(n), s, z, esc(m), esc(l))),
        None => o.push_str(",\"violation\":null"),
    }
    o.push_str("}\n");
    match get("--out") {
        Some(f) => { std::fs::File::create(f).unwrap().write_all(o.as_bytes()).unwrap(); }
        None => print!("{}", o),
    }
    util::clean();
    std::process::exit(if found.is_some() { 1 } else { 0 });
}
