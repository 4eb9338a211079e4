use crate::ensure;
use crate::lpfile;
use crate::problems::{lin, lp, milp, mk_minlp, mk_nlp, nl, Lin, Rec};
use crate::util::*;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::solver::*;
use simple_error::SimpleError;
use std::collections::HashMap;
use std::fs;
use std::path::PathBuf;
use std::sync::OnceLock;


struct Custom { params: HashMap<String, SolverParam> }
impl Solver for Custom {
    fn get_params(&self) -> &HashMap<String, SolverParam> { &self.params }
    fn get_params_mut(&mut self) -> &mut HashMap<String, SolverParam> { &mut self.params }
    fn solve(&self, _p: &mut Problem) -> Result<(SolverStatus, ProblemSol), SimpleError> { Err(SimpleError::new("none")) }
}

fn eqp(a: &SolverParam, b: &SolverParam) -> bool {
    match (a, b) {
        (SolverParam::IntParam(x), SolverParam::IntParam(y)) => x == y,
        (SolverParam::FloatParam(x), SolverParam::FloatParam(y)) => x.to_bits() == y.to_bits(),
        (SolverParam::StrParam(x), SolverParam::StrParam(y)) => x == y,
        _ => false,
    }
}
fn kind(a: &SolverParam) -> usize { match a { SolverParam::IntParam(_) => 0, SolverParam::FloatParam(_) => 1, SolverParam::StrParam(_) => 2 } }
fn showp(a: &SolverParam) -> String { match a { SolverParam::IntParam(x) => format!("Int {}", x), SolverParam::FloatParam(x) => format!("Float {:?}", x), SolverParam::StrParam(x) => format!("Str {:?}", x) } }

/// texts of every sort: usual words, with white space around, capitals, other alphabets, control characters, long ones
pub fn text(r: &mut Rng) -> String {
    if r.chance(1, 3) { return r.pick(&["", "yes", "no", "5", "1.0", "No", "-3", " "]).to_string(); }
    let al: Vec<char> = "abyesnoYN019 _-.,;:=\"'\\/\t\n\r\0\u{e9}\u{df}\u{4e2d}\u{a0}".chars().collect();
    let n = match r.below(6) { 0 => r.range(0, 300), _ => r.range(0, 8) };
    (0..n).map(|_| *r.pick(&al)).collect()
}

pub fn s07(c: &mut Ctx) -> R {
    let which = c.rng.below(4);
    let mut cm = HashMap::new();
    cm.insert("i".to_string(), SolverParam::IntParam(3));
    cm.insert("f".to_string(), SolverParam::FloatParam(2.5));
    cm.insert("s".to_string(), SolverParam::StrParam("no".to_string()));
    cm.insert("j".to_string(), SolverParam::IntParam(3));
    let mut s: Box<dyn Solver> = match which { 0 => Box::new(SolverCbcCmd::new()), 1 => Box::new(SolverClpCmd::new()), 2 => Box::new(SolverIpopt::new()), _ => Box::new(Custom { params: cm }) };
    let mut model: HashMap<String, SolverParam> = s.get_params().clone();
    c.note(format!("solver {}", which));
    let expect: &[(&str, usize)] = match which { 0 | 1 => &[("logLevel", 0)], 2 => &[("print_level", 0), ("sb", 2)], _ => &[] };
    for (n, k) in expect { ensure!(model.get(*n).map(kind) == Some(*k), "new solver lacks parameter {}", n); }
    let names = ["logLevel", "print_level", "sb", "i", "f", "s", "j", "loglevel", "", "x", "tol", "sb "];
    let (mut ok, mut no) = (0, 0);
    for _ in 0..c.rng.range(1, c.size * 2) {
        let known: Vec<String> = { let mut k: Vec<String> = model.keys().cloned().collect(); k.sort(); k };
        let name = if c.rng.chance(1, 2) { c.rng.pick(&known).clone() } else { c.rng.pick(&names).to_string() };
        let v = match c.rng.below(3) {
            0 => SolverParam::IntParam(match c.rng.below(3) { 0 => *c.rng.pick(&[0, 1, -1, 5, i32::MAX, i32::MIN]), 1 => c.rng.below(200) as i32 - 100, _ => c.rng.u() as i32 }),
            1 => SolverParam::FloatParam(match c.rng.below(3) { 0 => *c.rng.pick(&[0., -0., 1., -1.5, 5., f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::MAX, 1e-320]), 1 => c.rng.num(), _ => f64::from_bits(c.rng.u()) }),
            _ => SolverParam::StrParam(text(&mut c.rng)),
        };
        c.note(format!("set {:?} to {}", name, showp(&v)));
        let r = s.set_param(&name, v.clone());
        let want = model.get(&name).map(|o| kind(o) == kind(&v)).unwrap_or(false);
        ensure!(r.is_ok() == want, "setting {:?} to {} gives {}", name, showp(&v), if r.is_ok() { "success" } else { "an error" });
        if want { model.insert(name.clone(), v); ok += 1 } else { no += 1 }
        ensure!(s.get_params().len() == model.len(), "number of parameters is {}, expected {}", s.get_params().len(), model.len());
        for (n, p) in &model {
            let g = s.get_param(n).map(|x| x.clone());
            ensure!(g.as_ref().map(|x| eqp(x, p)).unwrap_or(false), "parameter {:?} reads {:?}, expected {}", n, g.as_ref().map(showp), showp(p));
            ensure!(s.get_params().get(n).map(|x| eqp(x, p)).unwrap_or(false), "parameter list entry {:?} is wrong", n);
        }
        for n in &names { if !model.contains_key(*n) { ensure!(s.get_param(n).is_none(), "parameter {:?} appeared", n); } }
    }
    if ok > 0 && no > 0 { c.nt(); }
    Ok(())
}

// ---------------------------------------------------------------- solution files

#[derive(Debug, Clone, PartialEq)]
pub enum Want { Status(&'static str), Sol(Vec<f64>, Vec<f64>, Vec<f64>, Vec<f64>), Bad }

fn stat(s: &SolverStatus) -> &'static str { match s { SolverStatus::Solved => "solved", SolverStatus::Infeasible => "infeasible", SolverStatus::Unknown => "unknown", SolverStatus::Error => "error" } }

/// what the text says, by the format's definition; None where the property leaves it open
pub fn reference(text: &str, nx: usize, na: usize, cbc: bool) -> Option<Want> {
    let mut lines: Vec<&str> = text.split('\n').collect();
    if lines.last() == Some(&"") { lines.pop(); }
    let head = if lines.is_empty() { "" } else { lines[0] };
    let first = head.split_ascii_whitespace().next().unwrap_or("");
    let status = if first == "Optimal" || (!cbc && first == "optimal") { "solved" }
        else if first == "Infeasible" || (!cbc && first == "infeasible") || (cbc && head.starts_with("Integer infeasible")) { "infeasible" }
        else if first.to_lowercase().starts_with("optimal") || head.to_lowercase().contains("infeasible") { return None }
        else { "error" };
    if status != "solved" { return Some(Want::Status(status)); }
    let mut k = 1;
    if !cbc && !head.contains("objective value") { k = 2; }
    let (mut x, mut lam, mut mu, mut pi) = (vec![0.; nx], vec![0.; na], vec![0.; nx], vec![0.; nx]);
    for l in lines.iter().skip(k) {
        let l = l.strip_suffix('\r').unwrap_or(l);
        let mut t: Vec<&str> = l.split_ascii_whitespace().collect();
        if t.first() == Some(&"**") { t.remove(0); }
        if t.len() < 4 { return Some(Want::Bad); }
        let (v, m): (f64, f64) = match (t[2].parse(), t[3].parse()) { (Ok(v), Ok(m)) => (v, m), _ => return Some(Want::Bad) };
        let mut ns = t[1].split('_');
        let ty = ns.next().unwrap_or("");
        let i: usize = match ns.next().map(|s| s.parse()) { Some(Ok(i)) => i, _ => return Some(Want::Bad) };
        if ns.next().is_some() { return None; }
        match ty {
            "x" if i < nx => { x[i] = v; if m > 0. { pi[i] = m } else { mu[i] = -m } }
            "c" if i < na => lam[i] = m,
            _ => return Some(Want::Bad),
        }
    }
    Some(Want::Sol(x, lam, mu, pi))
}

pub fn number(r: &mut Rng) -> String {
    let v = r.num();
    match r.below(5) { 0 => "0".into(), 1 => format!("{}", v), 2 => format!("{:e}", v), 3 => format!("{:?}", v), _ => format!("{:.7}", v) }
}

/// a solution file for a problem with nx variables and na rows, possibly mutated
pub fn soltext(r: &mut Rng, nx: usize, na: usize, cbc: bool, mutate: bool) -> Vec<u8> {
    let heads: &[&str] = if cbc {
        &["Optimal - objective value 12.5", "Optimal - objective value -3e+10", "Infeasible - objective value 0", "Integer infeasible - objective value 1", "Stopped on time - objective value 3", "Unbounded - objective value 0", "Optimal (within gap tolerance) - objective value 2", "Status unknown - objective value"]
    } else {
        &["optimal\nObjective value 12.5", "Optimal\nObjective value 1", "infeasible\nObjective value 0", "Infeasible\nObjective value 0", "Optimal - objective value 7", "Infeasible - objective value 7", "unbounded\nObjective value", "stopped\nObjective value 3", "unknown"]
    };
    let hi = if r.chance(2, 3) { if cbc { 0 } else { *r.pick(&[0, 1, 4]) } } else { r.below(heads.len()) };
    let mut o = String::from(heads[hi]);
    o.push('\n');
    let mut lines: Vec<String> = Vec::new();
    let listall = r.chance(2, 3);
    for (ty, n) in [("c", na), ("x", nx)] {
        for i in 0..n {
            if listall || r.chance(1, 2) {
                let f = if r.chance(1, 8) { "**" } else { "" };
                let (v, m) = (number(r), number(r));
                lines.push(format!("{}{:>7} {}_{}  {:>12} {:>20}", f, i, ty, i, v, m).replace("**", "** "));
            }
        }
    }
    if r.chance(1, 4) { let n = lines.len(); if n > 1 { let (a, b) = (r.below(n), r.below(n)); lines.swap(a, b); } }
    if mutate {
        for _ in 0..r.range(1, 2) {
            let n = lines.len();
            let at = r.below(n + 1);
            let bad = match r.below(15) {
                12..=14 => format!("      0 {}{}  {} {}", r.pick(&["x", "c", "xs", "cs", "xx", "X", "C", "x0", "ax", "c0", "", "_x", "_", "row", "+x", "."]),
                    r.pick(&["_0", "_1", "_00", "_+1", "-0", "_1.0", "__0", "", "_0x", "_x"]), number(r), number(r)),
                0 => format!("      0 x_{}   1.0   2.0", nx + r.below(3)),
                1 => format!("      0 c_{}   1.0   2.0", na + r.below(3)),
                2 => "      0 y_0  1 2".to_string(),
                3 => "      0 x_  1 2".to_string(),
                4 => "      0 x0  1 2".to_string(),
                5 => "      0 x_0 abc 2".to_string(),
                6 => "      0 x_0 1 2x".to_string(),
                7 => "      0 x_0 1".to_string(),
                8 => "".to_string(),
                9 => "      0 x_-1 1 2".to_string(),
                10 => "      0 x_18446744073709551615 1 2".to_string(),
                _ => "**".to_string(),
            };
            if n > 0 && r.chance(1, 2) { let i = r.below(n); lines[i] = bad } else { lines.insert(at, bad) }
        }
    }
    for l in lines { o.push_str(&l); o.push('\n'); }
    let mut b = o.into_bytes();
    if mutate && r.chance(1, 3) && !b.is_empty() { let k = r.below(b.len()); b.truncate(k); }
    if mutate && r.chance(1, 6) && !b.is_empty() { let k = r.below(b.len()); b[k] = *r.pick(&[b'\n', b' ', b'_', b'x', 0xff, 0, b'9', b'-']); }
    b
}

pub fn check_sol(got: &Result<(SolverStatus, ProblemSol), String>, w: &Want, nx: usize, na: usize) -> R {
    match w {
        Want::Bad => ensure!(got.is_err(), "malformed file reported as {}", stat(&got.as_ref().unwrap().0)),
        Want::Status(s) => {
            let (st, sol) = got.as_ref().map_err(|e| format!("error {} instead of status {}", e, s))?;
            ensure!(stat(st) == *s, "status {}, expected {}", stat(st), s);
            ensure!(sol.x.len() == nx && sol.lam.len() == na && sol.mu.len() == nx && sol.pi.len() == nx, "solution vectors have wrong sizes");
        }
        Want::Sol(x, lam, mu, pi) => {
            let (st, sol) = got.as_ref().map_err(|e| format!("error {} for a good file", e))?;
            ensure!(stat(st) == "solved", "status {}, expected solved", stat(st));
            let q = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(u, v)| same(*u, *v));
            ensure!(q(&sol.x, x), "values {:?}, expected {:?}", sol.x, x);
            ensure!(q(&sol.lam, lam), "row duals {:?}, expected {:?}", sol.lam, lam);
            ensure!(q(&sol.mu, mu), "upper-bound duals {:?}, expected {:?}", sol.mu, mu);
            ensure!(q(&sol.pi, pi), "lower-bound duals {:?}, expected {:?}", sol.pi, pi);
            ensure!(sol.nu.is_empty(), "nonlinear duals appear");
        }
    }
    Ok(())
}

pub fn s08(c: &mut Ctx) -> R {
    let d = lin(c);
    let p = milp(&d);
    let cbc = c.rng.chance(1, 2);
    let mutate = c.rng.chance(1, 2);
    let missing = c.rng.chance(1, 25);
    let t = if c.rng.chance(1, 25) { Vec::new() } else { soltext(&mut c.rng, d.nx, d.na, cbc, mutate) };
    let text = String::from_utf8_lossy(&t).to_string();
    c.note(format!("{} file for {} variables and {} rows{}:\n{}", if cbc { "cbc" } else { "clp" }, d.nx, d.na, if missing { " (missing)" } else { "" }, text));
    if text.lines().count() > 1 { c.nt(); }
    let f = scratch().join("s08.sol");
    let _ = fs::remove_file(&f);
    if !missing { fs::write(&f, &t).unwrap(); }
    let r = SolverCbcCmd::read_sol_file(f.to_str().unwrap(), &p, cbc).map_err(|e| e.to_string());
    if missing { return check_sol(&r, &Want::Status("error"), d.nx, d.na); }
    if String::from_utf8(t).is_err() {
        // not text: no panic, and no claim of a solution unless the bad bytes come later than read
        return Ok(());
    }
    match reference(&text, d.nx, d.na, cbc) { Some(w) => check_sol(&r, &w, d.nx, d.na), None => Ok(()) }
}

// ---------------------------------------------------------------- command-line solvers

static DIRS: OnceLock<PathBuf> = OnceLock::new();

/// scratch/bin holds stand-ins for the solver programs, scratch/cwd is the working directory
fn setup() -> PathBuf {
    DIRS.get_or_init(|| {
        let d = scratch();
        for s in ["bin", "cwd", "rec", "tmp", "empty"] { fs::create_dir_all(d.join(s)).unwrap(); }
        let sh = format!("#!/bin/sh\nR={}\necho run >> $R/count\nfor a in \"$@\"; do printf '%s\\n' \"$a\"; last=\"$a\"; done > $R/args\necho \"${{0##*/}}\" > $R/prog\n/bin/cat \"$1\" > $R/input\n[ -f $R/sol ] && /bin/cat $R/sol > \"$last\"\nexit $(/bin/cat $R/code)\n", d.join("rec").display());
        for n in ["cbc", "clp"] {
            let f = d.join("bin").join(n);
            fs::write(&f, &sh).unwrap();
            use std::os::unix::fs::PermissionsExt;
            fs::set_permissions(&f, fs::Permissions::from_mode(0o755)).unwrap();
        }
        std::env::set_var("TMPDIR", d.join("tmp"));
        d
    }).clone()
}

fn ls(d: &PathBuf) -> Vec<String> {
    let mut v: Vec<String> = fs::read_dir(d).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect();
    v.sort();
    v
}

fn problem(c: &mut Ctx, d: &Lin, t: usize) -> Problem {
    let rec: Rec = Default::default();
    match t {
        0 => Problem::Lp(lp(d)),
        1 => Problem::Milp(milp(d)),
        2 => { let q = nl(c); Problem::Nlp(mk_nlp(&q, rec)) }
        _ => { let q = nl(c); Problem::Minlp(mk_minlp(&q, rec)) }
    }
}

pub fn s09(c: &mut Ctx) -> R {
    let dirs = setup();
    c.nt();
    let rec = dirs.join("rec");
    let cwd = dirs.join("cwd");
    let last = fs::read_to_string(rec.join("args")).unwrap_or_default();
    for f in ls(&rec) { fs::remove_file(rec.join(f)).unwrap(); }
    for f in ls(&cwd) { let _ = fs::remove_file(cwd.join(f)); }
    std::env::set_current_dir(&cwd).unwrap();
    let mut d = lin(c);
    if c.rng.chance(1, 3) { lpfile::spice(c, &mut d); }
    let cbc = c.rng.chance(1, 2);
    let t = if c.rng.chance(1, 8) { c.rng.range(2, 3) } else { c.rng.below(2) };
    let level = *c.rng.pick(&[0, 0, 1, 5, -3, 63]);
    let setlevel = level == 0 || c.rng.chance(1, 2);
    let mode = c.rng.below(12);     // 0: solver missing, 1: no file, 2..4: corrupt, 5: cwd gone, 6: parameter gone, 7: file unreadable
    let text = soltext(&mut c.rng, d.nx, d.na, cbc, (2..=4).contains(&mode));
    let code = *c.rng.pick(&[0, 0, 0, 1, 3]);
    let keep = c.rng.chance(1, 3);
    c.note(format!("{} on problem kind {}, level {}, mode {}, exit code {}, {:?}\nsolution file:\n{}", if cbc { "cbc" } else { "clp" }, t, if setlevel { level } else { 5 }, mode, code, d, String::from_utf8_lossy(&text)));
    fs::write(rec.join("code"), format!("{}\n", code)).unwrap();
    if mode == 7 { let mut b = text.clone(); b.splice(0..0, [0xff, 0xfe, b'\n']); fs::write(rec.join("sol"), &b).unwrap(); }
    else if mode != 1 { fs::write(rec.join("sol"), &text).unwrap(); }
    if keep { fs::write(cwd.join("cbckeep.lp"), "x").unwrap(); fs::write(cwd.join("clpkeep.sol"), "x").unwrap(); }
    // files of the user's under the names the last call used
    if c.rng.chance(1, 2) { for a in last.lines() { if a.contains('.') && !a.contains('/') { fs::write(cwd.join(a), "x").unwrap(); c.note(format!("existing file {}", a)); } } }
    let before = ls(&cwd);
    std::env::set_var("PATH", if mode == 0 { dirs.join("empty") } else { dirs.join("bin") });
    let mut p = problem(c, &d, t);
    let mut s: Box<dyn Solver> = if cbc { Box::new(SolverCbcCmd::new()) } else { Box::new(SolverClpCmd::new()) };
    if setlevel { s.set_param("logLevel", SolverParam::IntParam(level)).map_err(|_| "level refused".to_string())?; }
    if mode == 6 { s.get_params_mut().remove("logLevel"); }
    if mode == 5 { fs::create_dir_all(cwd.join("gone")).unwrap(); std::env::set_current_dir(cwd.join("gone")).unwrap(); fs::remove_dir(cwd.join("gone")).unwrap(); }
    // keep solver output away from ours
    let r = s.solve(&mut p).map_err(|e| e.to_string());
    std::env::set_current_dir(&cwd).unwrap();
    let after = ls(&cwd);
    ensure!(before == after, "working directory holds {:?} after the call, {:?} before", after, before);
    for f in &after { ensure!(fs::read(cwd.join(f)).ok() == Some(b"x".to_vec()), "file {} of the user's was changed", f); }
    ensure!(ls(&dirs.join("tmp")).is_empty(), "temporary files left: {:?}", ls(&dirs.join("tmp")));
    let runs = fs::read_to_string(rec.join("count")).unwrap_or_default().lines().count();
    let supported = t == 0 || (cbc && t == 1);
    if !supported {
        ensure!(r.is_err(), "unsupported problem type accepted");
        ensure!(runs == 0, "solver run for unsupported problem type");
        return Ok(());
    }
    if mode == 0 || mode == 5 || mode == 6 {
        ensure!(r.is_err(), "no error although the solver could not be run");
        return Ok(());
    }
    ensure!(runs == 1, "solver run {} times", runs);
    ensure!(fs::read_to_string(rec.join("prog")).unwrap().trim() == if cbc { "cbc" } else { "clp" }, "wrong solver run");
    let args: Vec<String> = fs::read_to_string(rec.join("args")).unwrap().lines().map(|s| s.to_string()).collect();
    let lv = format!("{}", if setlevel { level } else { 5 });
    ensure!(args.windows(2).any(|w| w[0].trim_start_matches('-') == "logLevel" && w[1] == lv), "arguments {:?} lack log level {}", args, lv);
    ensure!(args.iter().any(|a| a.trim_start_matches('-') == "solve") && args.windows(2).any(|w| w[0].trim_start_matches('-').starts_with("solu") && w[1] == args[args.len() - 1]), "arguments {:?}", args);
    let input = fs::read_to_string(rec.join("input")).unwrap();
    lpfile::compare(&input, &d, &if t == 0 { vec![false; d.nx] } else { d.p.clone() }).map_err(|e| format!("LP file handed to the solver: {}", e))?;
    if mode == 1 { return check_sol(&r, &Want::Status("error"), d.nx, d.na); }
    if mode == 7 { ensure!(r.is_err(), "unreadable solution file reported as success"); return Ok(()); }
    match String::from_utf8(text) {
        Err(_) => Ok(()),
        Ok(s) => match reference(&s, d.nx, d.na, cbc) { Some(w) => check_sol(&r, &w, d.nx, d.na), None => Ok(()) },
    }
}
