use crate::ensure;
use crate::problems::{lin, lp, milp, Lin};
use crate::util::*;
use numopt::problem::milp::ProblemMilpIO;
use std::collections::BTreeMap;

/// What an LP file says, read by an independent reader of the (CPLEX) LP format subset.
#[derive(Debug, Default)]
pub struct Lp {
    pub minimize: bool,
    pub obj: Vec<(f64, String)>,
    pub rows: Vec<(String, Vec<(f64, String)>, String, f64)>,
    pub bounds: Vec<(String, f64, f64)>,
    pub general: Vec<String>,
}

fn isnum(t: &str) -> bool { t.chars().next().map(|c| c.is_ascii_digit() || c == '.').unwrap_or(false) }

fn terms(t: &[String]) -> Result<Vec<(f64, String)>, String> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < t.len() {
        let mut sign = 1.;
        if t[i] == "+" { i += 1 } else if t[i] == "-" { sign = -1.; i += 1 } else if i > 0 { return Err(format!("no sign before {}", t[i])); }
        if i >= t.len() { return Err("dangling sign".into()); }
        let mut v = 1.;
        if isnum(&t[i]) { v = t[i].parse().map_err(|_| format!("bad number {}", t[i]))?; i += 1; }
        if i >= t.len() || isnum(&t[i]) || t[i] == "+" || t[i] == "-" { return Err("coefficient without variable".into()); }
        o.push((sign * v, t[i].clone()));
        i += 1;
    }
    Ok(o)
}

fn num(t: &[String]) -> Result<f64, String> {
    let (s, r) = match t { [a] => (1., a), [s, a] if s == "-" => (-1., a), [s, a] if s == "+" => (1., a), _ => return Err(format!("number expected, got {:?}", t)) };
    r.parse::<f64>().map(|v| s * v).map_err(|_| format!("bad number {:?}", t))
}

pub fn read_lp(text: &str) -> Result<Lp, String> {
    // tokens: split signs that start a token off unless they belong to an exponent
    let mut lines: Vec<Vec<String>> = Vec::new();
    for l in text.lines() {
        let mut v = Vec::new();
        for w in l.split_whitespace() {
            let mut w = w;
            while (w.starts_with('+') || w.starts_with('-')) && w.len() > 1 { v.push(w[..1].to_string()); w = &w[1..]; }
            v.push(w.to_string());
        }
        lines.push(v);
    }
    let mut o = Lp::default();
    let mut sec = 0;
    let mut buf: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    let mut bl: Vec<Vec<String>> = Vec::new();
    let mut ended = false;
    for l in &lines {
        let low = l.join(" ").to_lowercase();
        if ended { if !l.is_empty() { return Err("text after End".into()); } continue; }
        let s = match low.as_str() {
            "minimize" | "min" | "minimise" => { o.minimize = true; 1 }
            "maximize" | "max" => 1,
            "subject to" | "st" | "s.t." | "such that" => 2,
            "bounds" => 3,
            "general" | "generals" | "gen" | "integer" | "integers" | "int" => 4,
            "end" => { ended = true; 5 }
            _ => 0,
        };
        if s > 0 { if s <= sec { return Err(format!("section {} out of order", low)); } sec = s; continue; }
        match sec {
            3 => if !l.is_empty() { bl.push(l.clone()) },
            1 | 2 | 4 => buf.entry(sec).or_default().extend(l.iter().cloned()),
            _ => if !l.is_empty() { return Err(format!("text outside sections: {}", low)); },
        }
    }
    if !ended { return Err("no End".into()); }
    let mut ob = buf.remove(&1).unwrap_or_default();
    if ob.first().map(|t| t.ends_with(':')).unwrap_or(false) { ob.remove(0); }
    o.obj = terms(&ob)?;
    let rows = buf.remove(&2).unwrap_or_default();
    let mut i = 0;
    while i < rows.len() {
        if !rows[i].ends_with(':') { return Err(format!("row without name at {}", rows[i])); }
        let name = rows[i].trim_end_matches(':').to_string();
        let mut j = i + 1;
        while j < rows.len() && !rows[j].ends_with(':') { j += 1; }
        let body = &rows[i + 1..j];
        let p = body.iter().position(|t| ["=", "<=", ">=", "<", ">", "=<", "=>"].contains(&t.as_str())).ok_or(format!("row {} has no relation", name))?;
        o.rows.push((name, terms(&body[..p])?, body[p].clone(), num(&body[p + 1..])?));
        i = j;
    }
    for l in &bl {
        let ps: Vec<usize> = (0..l.len()).filter(|i| l[*i] == "<=" || l[*i] == "<" || l[*i] == "=<").collect();
        if ps.len() != 2 || ps[1] != ps[0] + 2 { return Err(format!("unexpected bound line {:?}", l)); }
        o.bounds.push((l[ps[0] + 1].clone(), num(&l[..ps[0]])?, num(&l[ps[1] + 1..])?));
    }
    o.general = buf.remove(&4).unwrap_or_default();
    Ok(o)
}

/// correct to 11 significant digits
fn d11(got: f64, want: f64, mag: f64) -> bool {
    if want == 0. { return got.abs() <= 1e-15 * mag; }
    let p = 10f64.powf(want.abs().log10().floor());
    (got - want).abs() <= 5.0001e-11 * p + 1e-15 * (mag + want.abs())
}

fn var(s: &str, n: usize) -> Result<usize, String> {
    let i: usize = s.strip_prefix("x_").and_then(|t| t.parse().ok()).ok_or(format!("variable name {}", s))?;
    if i >= n || s != format!("x_{}", i) { return Err(format!("variable name {}", s)); }
    Ok(i)
}

/// the file describes the problem
pub fn compare(text: &str, d: &Lin, p: &[bool]) -> R {
    let q = read_lp(text).map_err(|e| format!("file does not parse: {}\n{}", e, text))?;
    let fail = |m: String| -> R { Err(format!("{}\n{}", m, text)) };
    if !q.minimize { return fail("objective is not minimized".into()); }
    let mut co = vec![0.; d.nx];
    let mut ct = vec![0; d.nx];
    for (v, n) in &q.obj { let i = var(n, d.nx)?; co[i] += v; ct[i] += 1; if *v == 0. { return fail(format!("zero term {}", n)); } }
    for i in 0..d.nx {
        if !d11(co[i], d.c[i], 0.) { return fail(format!("objective coefficient of x_{} is {:?}, expected {:?}", i, co[i], d.c[i])); }
        if ct[i] > 1 { return fail(format!("x_{} listed twice in the objective", i)); }
    }
    if q.rows.len() != d.na { return fail(format!("{} rows, expected {}", q.rows.len(), d.na)); }
    for (i, (name, t, rel, rhs)) in q.rows.iter().enumerate() {
        if *name != format!("c_{}", i) { return fail(format!("row {} is named {}", i, name)); }
        if rel != "=" { return fail(format!("row {} has relation {}", i, rel)); }
        if !d11(*rhs, d.b[i], 0.) { return fail(format!("right-hand side of row {} is {:?}, expected {:?}", i, rhs, d.b[i])); }
        let mut co = vec![0.; d.nx];
        let mut ct = vec![0; d.nx];
        for (v, n) in t { let j = var(n, d.nx)?; co[j] += v; ct[j] += 1; if *v == 0. { return fail(format!("zero term {} in row {}", n, i)); } }
        for j in 0..d.nx {
            let e: Vec<f64> = d.a.iter().filter(|x| x.0 == i && x.1 == j).map(|x| x.2).collect();
            let want: f64 = e.iter().sum();
            if !d11(co[j], want, e.iter().map(|x| x.abs()).sum()) { return fail(format!("coefficient of x_{} in row {} is {:?}, expected {:?}", j, i, co[j], want)); }
            if ct[j] > 1 { return fail(format!("x_{} listed twice in row {}", j, i)); }
        }
    }
    if q.bounds.len() != d.nx { return fail(format!("{} bound lines for {} variables", q.bounds.len(), d.nx)); }
    let mut seen = vec![false; d.nx];
    for (n, l, u) in &q.bounds {
        let i = var(n, d.nx)?;
        if seen[i] { return fail(format!("bounds of x_{} listed twice", i)); }
        seen[i] = true;
        if !d11(*l, d.l[i], 0.) || !d11(*u, d.u[i], 0.) { return fail(format!("bounds of x_{} are {:?} {:?}, expected {:?} {:?}", i, l, u, d.l[i], d.u[i])); }
    }
    let mut g = vec![false; d.nx];
    for n in &q.general { let i = var(n, d.nx)?; if g[i] { return fail(format!("x_{} general twice", i)); } g[i] = true; }
    if g != p { return fail(format!("general variables {:?}, expected {:?}", g, p)); }
    Ok(())
}

pub fn spice(c: &mut Ctx, d: &mut Lin) {
    let special = [3e-305, -1e-310, 5e-324, 1e-11, 1., -1., 1.0000000001, -0.9999999999, 1.99999999995, 12345678901.5, -1e-300, 1e300, 0.1, 1. / 3., -2. / 3., 1e8, -1e8, 0., 9.9999999999e5, 99999999999.5, -0.];
    let m = c.rng.below(4);
    for v in d.c.iter_mut().chain(d.b.iter_mut()).chain(d.l.iter_mut()).chain(d.u.iter_mut()) {
        if m > 0 && c.rng.chance(m, 4) { *v = *c.rng.pick(&special); }
    }
    for t in d.a.iter_mut() { if m > 0 && c.rng.chance(m, 6) { t.2 = *c.rng.pick(&special[..16]); } }
    // cancelling duplicates
    if !d.a.is_empty() && c.rng.chance(1, 3) { let t = *c.rng.pick(&d.a); d.a.push((t.0, t.1, -t.2)); }
}

pub fn p06(c: &mut Ctx) -> R {
    let mut d = lin(c);
    spice(c, &mut d);
    c.note(format!("{:?}", d));
    if d.nx > 0 && d.na > 0 { c.nt(); }
    let f = scratch().join("p06.lp");
    let fs = f.to_str().unwrap();
    if c.rng.chance(1, 2) { std::fs::write(&f, "old content ".repeat(300)).unwrap(); }
    if c.rng.chance(1, 2) {
        milp(&d).write_to_lp_file(fs).map_err(|e| format!("writing fails: {}", e))?;
        compare(&std::fs::read_to_string(&f).unwrap(), &d, &d.p)?;
    } else {
        let mut q = lp(&d);
        q.as_mut_milp().write_to_lp_file(fs).map_err(|e| format!("writing fails: {}", e))?;
        compare(&std::fs::read_to_string(&f).unwrap(), &d, &vec![false; d.nx])?;
    }
    ensure!(milp(&d).write_to_lp_file("/nonexistent-dir/x.lp").is_err(), "unwritable file reported as success");
    if std::path::Path::new("/dev/full").exists() { ensure!(milp(&d).write_to_lp_file("/dev/full").is_err(), "writing to a full disk reported as success"); }
    Ok(())
}
