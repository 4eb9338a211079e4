//! C19, Q20, Q21, Q22: standard form of constraints and models, and solving models.
use crate::ensure;
use crate::expr::*;
use crate::util::*;
use numopt::matrix::coo::CooMat;
use numopt::model::constraint::Constraint;
use numopt::model::constraint_std::{ConstraintStd, ConstraintStdComp};
use numopt::model::model_std::{ModelStd, ModelStdProb};
use numopt::model::*;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::solver::*;
use simple_error::SimpleError;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

/// a constraint with its reference left minus right side
struct K { k: Constraint, d: X, kind: usize }

fn minus(a: X, b: X) -> X { Rc::new(E::Add(vec![a, Rc::new(E::Mul(k(-1.), b))])) }

fn make(c: &mut Ctx, p: &Pool, affine: bool) -> K {
    let pick = |c: &mut Ctx| -> (Node, X) {
        for _ in 0..20 {
            let (n, x) = p.any(&mut c.rng);
            if (!affine || structurally_affine(&n)) && !crate::nodes::raw_zero_div(&n) { return (n, x); }
        }
        (p.items[0].0.clone(), p.items[0].1.clone())
    };
    let kind = c.rng.below(3);
    let form = c.rng.below(10);
    let (a, xa, b, xb) = if form < 2 {
        // plain bounds, both ways round
        let (v, x) = (p.items[c.rng.below(p.vars.len())].0.clone(), ());
        let _ = x;
        let i = p.var_index(&v).unwrap();
        let s = if c.rng.chance(1, 5) { *c.rng.pick(&[2e8, -2e8, 1e8, -1e8]) } else { c.rng.small() };
        let (n, xs) = (ConstantScalar::new(s), k(s));
        // a coefficient close to 1 is not 1
        let (v, xv): (Node, X) = if c.rng.chance(1, 4) { let q = 1. + *c.rng.pick(&[1e-10, -1e-10, 3e-12, -2e-11]); (&v * &ConstantScalar::new(q), Rc::new(E::Mul(k(q), Rc::new(E::V(i))))) } else { (v, Rc::new(E::V(i))) };
        if c.rng.chance(1, 3) { (n, xs, v, xv) } else { (v, xv, n, xs) }
    } else {
        let (a, xa) = pick(c);
        let (b, xb) = if c.rng.chance(1, 2) { let s = c.rng.small(); (ConstantScalar::new(s), k(s)) } else { pick(c) };
        (a, xa, b, xb)
    };
    let tag = *c.rng.pick(&["", "t", "u"]);
    let kk = match kind {
        0 => a.equal_and_tag(&b, tag),
        1 => a.leq_and_tag(&b, tag),
        _ => a.geq_and_tag(&b, tag),
    };
    c.note(format!("constraint {}   [{} ? {}]", kk, show(&xa), show(&xb)));
    K { k: kk, d: minus(xa, xb), kind }
}

/// values of second derivatives listed, per unordered pair, checked against the reference
fn check_pairs(what: &str, vars: usize, list: &HashMap<(usize, usize), f64>, d: &X, x: &[f64]) -> R {
    let base = match eval(d, x) { Some(j) => j.m, None => return Ok(()) };
    for s in 0..vars { for t in 0..=s {
        let w = match eval(&diff(&diff(d, s), t), x) { Some(j) => j, None => continue };
        let w2 = match eval(&diff(&diff(d, t), s), x) { Some(j) => j, None => continue };
        let got = *list.get(&(s, t)).unwrap_or(&0.);
        ensure!(close(got, w.v, w.m + w2.m + base), "{}: second derivative v{},v{} is {:?} at {:?}, expected {:?}", what, s, t, got, x, w.v);
    } }
    Ok(())
}

fn check_std(c: &mut Ctx, p: &Pool, q: &K, comp: &ConstraintStdComp, ar: (usize, usize), jr: (usize, usize)) -> Result<Option<Node>, String> {
    let nv = p.vars.len();
    let kk = &q.k;
    let lens = (comp.ca.len(), comp.cj.len(), comp.b.len(), comp.f.len(), comp.h.len(), comp.u.len(), comp.l.len());
    ensure!(comp.prop.len() == 1, "{} property records for {}", comp.prop.len(), kk);
    for (_, _, r) in comp.u.iter().chain(comp.l.iter()) { ensure!(r == kk, "bound refers to {} instead of {}", r, kk); }
    for r in comp.ca.iter().chain(comp.cj.iter()) { ensure!(r == kk, "row refers to {} instead of {}", r, kk); }
    let row = lens.0 + lens.1;
    ensure!(row <= 1, "{} rows for {}", row, kk);
    ensure!(lens.2 == lens.0 && lens.3 == lens.1 && lens.4 == lens.1, "component counts {:?} for {}", lens, kk);
    ensure!(ar.1 == ar.0 + lens.0 && jr.1 == jr.0 + lens.1, "row counters go from {:?} to {:?} for {} linear and {} nonlinear rows of {}", (ar.0, jr.0), (ar.1, jr.1), lens.0, lens.1, kk);
    // slack: bounded variable that is not one of the model's
    let bounds: Vec<(Node, f64, bool)> = comp.u.iter().map(|t| (t.0.clone(), t.1, true)).chain(comp.l.iter().map(|t| (t.0.clone(), t.1, false))).collect();
    let mut slack: Option<Node> = None;
    let exp = kk.lhs() - kk.rhs();
    let mut keys = reach(&exp);
    if row == 0 {
        ensure!(bounds.len() == 1 && comp.a.is_empty() && comp.j.is_empty(), "no row but {} bounds for {}", bounds.len(), kk);
        ensure!(q.kind != 0, "equality {} turned into a bound", kk);
        let i = match p.var_index(&bounds[0].0) { Some(i) => i, None => return Err(format!("bound of {} on a foreign variable", kk)) };
        let mut x = point(&mut c.rng, nv);
        x[i] = bounds[0].1;
        if let Some(g) = eval(&q.d, &x) { ensure!(g.v.abs() <= 1e-13 * (g.m + bounds[0].1.abs()), "{} turned into a bound at {:?}, where its sides differ by {:?}", kk, bounds[0].1, g.v); }
        for _ in 0..5 {
            let mut x = point(&mut c.rng, nv);
            if c.rng.chance(1, 2) { x[i] = bounds[0].1 + *c.rng.pick(&[0., 1., -1., 0.5]); }
            if let Some(g) = eval(&q.d, &x) {
                let (v, val, up) = (x[i], bounds[0].1, bounds[0].2);
                let s = if q.kind == 1 { g.v } else { -g.v };
                let b = if up { v - val } else { val - v };
                let tol = 1e-9 * (1. + g.m + val.abs() + v.abs());
                if s.abs() > tol || b.abs() > tol {
                    ensure!((s > tol) == (b > tol) || (s.abs() <= tol && b.abs() <= tol), "{} at {:?}: constraint {}, bound ({} {} {:?}) {}", kk, x, if s > 0. { "violated" } else { "holds" }, bounds[0].0, if up { "<=" } else { ">=" }, val, if b > 0. { "violated" } else { "holds" });
                }
            }
        }
    } else {
        if q.kind == 0 {
            ensure!(bounds.is_empty(), "bounds for equality {}", kk);
        } else {
            ensure!(bounds.len() == 1 && bounds[0].1 == 0. && bounds[0].2 == (q.kind == 1), "slack bound of {} is {:?}", kk, bounds);
            let s = bounds[0].0.clone();
            ensure!(p.var_index(&s).is_none(), "slack of {} is one of the model's variables", kk);
            match &s { Node::VariableScalar(v) => ensure!(!v.is_integer(), "slack of {} is integer", kk), _ => return Err("slack is not a variable".to_string()) }
            keys.insert(s.clone());
            slack = Some(s);
        }
        for _ in 0..4 {
            let x = point(&mut c.rng, nv);
            let sv = c.rng.small();
            let g = match eval(&q.d, &x) { Some(g) => g, None => continue };
            let sl = if slack.is_some() { sv } else { 0. };
            if lens.0 == 1 {
                ensure!(comp.j.is_empty(), "Jacobian entries for linear {}", kk);
                let (mut v, mut mag) = (-comp.b[0], comp.b[0].abs());
                for (r, w, k) in &comp.a {
                    ensure!(*r == ar.0, "entry of {} in row {} instead of {}", kk, r, ar.0);
                    let xv = match p.var_index(w) { Some(i) => x[i], None => { ensure!(Some(w) == slack.as_ref(), "foreign variable {} in row of {}", w, kk); sv } };
                    v += k * xv;
                    mag += (k * xv).abs();
                }
                ensure!(close(v, g.v - sl, mag + g.m), "row of {} has residual {:?} at {:?} with slack {:?}, expected {:?}", kk, v, x, sl, g.v - sl);
            } else {
                ensure!(comp.a.is_empty(), "linear entries for nonlinear {}", kk);
                let mut m = vals(&p.vars, &x);
                if let Some(s) = slack.as_ref() { m.insert(s, sv); }
                let got = comp.f[0].evaluate(&m);
                ensure!(close(got, g.v - sl, g.m + sl.abs()), "row expression {} of {} is {:?} at {:?} with slack {:?}, expected {:?}", comp.f[0], kk, got, x, sl, g.v - sl);
                let mut seen: HashSet<Node> = HashSet::new();
                for (r, w, e) in &comp.j {
                    ensure!(*r == jr.0, "Jacobian entry of {} in row {} instead of {}", kk, r, jr.0);
                    ensure!(seen.insert(w.clone()), "two Jacobian entries for {} in {}", w, kk);
                    match p.var_index(w) {
                        Some(i) => if let Some(j) = eval(&diff(&q.d, i), &x) {
                            let got = e.evaluate(&m);
                            ensure!(close(got, j.v, j.m + g.m), "Jacobian entry v{} of {} is {:?} at {:?}, expected {:?}", i, kk, got, x, j.v);
                        },
                        None => {
                            ensure!(Some(w) == slack.as_ref(), "foreign variable {} in Jacobian of {}", w, kk);
                            ensure!(e.evaluate(&m) == -1., "slack entry of {} is {}", kk, e);
                        }
                    }
                }
                ensure!(seen == keys, "Jacobian of {} has entries for {} of {} variables", kk, seen.len(), keys.len());
                let mut list: HashMap<(usize, usize), f64> = HashMap::new();
                for (a, b, e) in &comp.h[0] {
                    let (s, t) = match (p.var_index(a), p.var_index(b)) { (Some(s), Some(t)) => (s, t), _ => return Err(format!("foreign variable in Hessian of {}", kk)) };
                    ensure!(list.insert((s.max(t), s.min(t)), e.evaluate(&m)).is_none(), "Hessian of {} lists v{}, v{} twice", kk, s, t);
                }
                check_pairs(&format!("{}", kk), nv, &list, &q.d, &x)?;
            }
        }
    }
    let got: HashSet<Node> = comp.prop[0].a.keys().cloned().collect();
    ensure!(got == keys, "standard form of {} reports {} variables, has {}", kk, got.len(), keys.len());
    Ok(slack)
}

pub fn c19(c: &mut Ctx) -> R {
    let nv = c.rng.range(1, 3);
    let mut p = Pool::new(c, nv, true);
    for _ in 0..c.rng.range(0, c.size + 1) { p.grow(c, true)?; }
    c.nt();
    let mut slacks: HashSet<Node> = HashSet::new();
    let (mut ar, mut jr) = (c.rng.below(4), c.rng.below(4));
    for _ in 0..c.rng.range(1, 4) {
        let aff = c.rng.chance(1, 2);
        let q = make(c, &p, aff);
        if crate::nodes::raw_zero_div(&(q.k.lhs() - q.k.rhs())) { continue; }
        for _ in 0..c.rng.range(1, 2) {
            let (a0, j0) = (ar, jr);
            let comp = q.k.std_components(&mut ar, &mut jr);
            if let Some(s) = check_std(c, &p, &q, &comp, (a0, ar), (j0, jr))? {
                ensure!(slacks.insert(s), "slack of {} used before", q.k);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- models

struct M { p: Pool, m: Model, obj: Option<(bool, Node, X)>, ks: Vec<K>, init: Vec<Option<f64>> }

fn model(c: &mut Ctx, unique_init: bool) -> Result<M, String> {
    let nv = c.rng.range(1, 3);
    let style = c.rng.below(3); // 0: affine, 1: mixed, 2: mixed with integers
    let ints = style != 1 || c.rng.chance(1, 3);
    let mut p = Pool::new(c, nv, ints);
    for _ in 0..c.rng.range(0, c.size + 1) { p.grow(c, false)?; }
    let mut m = Model::new();
    let affobj = style == 0 || c.rng.chance(1, 2);
    let mut obj = None;
    let max = c.rng.chance(1, 2);
    if c.rng.chance(7, 8) {
        for _ in 0..20 {
            let (n, x) = if c.rng.chance(1, 16) { let s = c.rng.small(); (ConstantScalar::new(s), k(s)) } else { p.any(&mut c.rng) };
            if !affobj || structurally_affine(&n) {
                c.note(format!("{} {}   [{}]", if max { "maximize" } else { "minimize" }, n, show(&x)));
                m.set_objective(if max { Objective::maximize(&n) } else { Objective::minimize(&n) });
                obj = Some((max, n, x));
                break;
            }
        }
    }
    let mut ks = Vec::new();
    for _ in 0..c.rng.range(0, c.size.min(5)) {
        let aff = style == 0 || c.rng.chance(1, 2);
        ks.push(make(c, &p, aff));
    }
    if c.rng.chance(1, 2) { for q in &ks { m.add_constraint(&q.k); } }
    else { m.add_constraints(&ks.iter().map(|q| &q.k).collect::<Vec<_>>()); }
    if !ks.is_empty() { c.nt(); }
    let mut init = vec![None; nv];
    let mut h: HashMap<&Node, f64> = HashMap::new();
    let foreign = VariableScalar::new_continuous("x");
    h.insert(&foreign, 77.);
    for i in 0..nv {
        if unique_init || c.rng.chance(1, 2) {
            let v = if unique_init { 1000. + i as f64 } else { c.rng.num() };
            init[i] = Some(v);
            h.insert(&p.vars[i], v);
        }
    }
    m.set_init_primals(&h);
    Ok(M { p, m, obj, ks, init })
}

fn same_mat(a: &CooMat<f64>) -> Vec<(usize, usize, f64)> { a.iter().map(|(r, c, v)| (*r, *c, *v)).collect() }

fn views(p: &Problem) -> (usize, Vec<(usize, usize, f64)>, Vec<f64>, Vec<f64>, Vec<f64>, Option<Vec<bool>>, Option<Vec<f64>>, Option<Vec<f64>>, (usize, usize)) {
    let o = |x: Option<&[f64]>| x.map(|y| y.to_vec());
    match p {
        Problem::Lp(q) => (0, same_mat(q.a()), q.b().to_vec(), q.l().to_vec(), q.u().to_vec(), None, o(q.x0()), Some(q.c().to_vec()), (q.a().rows(), q.a().cols())),
        Problem::Milp(q) => (1, same_mat(q.a()), q.b().to_vec(), q.l().to_vec(), q.u().to_vec(), Some(q.p().to_vec()), o(q.x0()), Some(q.c().to_vec()), (q.a().rows(), q.a().cols())),
        Problem::Nlp(q) => (2, same_mat(q.a()), q.b().to_vec(), q.l().to_vec(), q.u().to_vec(), None, o(q.x0()), None, (q.a().rows(), q.a().cols())),
        Problem::Minlp(q) => (3, same_mat(q.a()), q.b().to_vec(), q.l().to_vec(), q.u().to_vec(), Some(q.p().to_vec()), o(q.x0()), None, (q.a().rows(), q.a().cols())),
    }
}

/// where each constraint sits: 0 bound, 1 linear row, 2 nonlinear row
enum Place { Bound(usize, f64, bool), Lin(usize), Nl(usize) }

fn places(q: &M) -> Result<(Vec<Place>, usize, usize, HashSet<Node>, bool), String> {
    let (mut ar, mut jr) = (0, 0);
    let mut v = Vec::new();
    let mut used: HashSet<Node> = HashSet::new();
    let mut affine = true;
    if let Some((max, n, _)) = &q.obj {
        let n2 = if *max { -n } else { n.clone() };
        used.extend(reach(&n2));
        affine &= structurally_affine(&n2);
    }
    for k in &q.ks {
        let comp = k.k.std_components(&mut ar, &mut jr);
        for x in comp.prop[0].a.keys() { if q.p.var_index(x).is_some() { used.insert(x.clone()); } }
        affine &= structurally_affine(&(k.k.lhs() - k.k.rhs()));
        v.push(if comp.ca.len() == 1 { Place::Lin(ar - 1) } else if comp.cj.len() == 1 { Place::Nl(jr - 1) }
            else if comp.u.len() == 1 { Place::Bound(q.p.var_index(&comp.u[0].0).unwrap(), comp.u[0].1, true) }
            else if comp.l.len() == 1 { Place::Bound(q.p.var_index(&comp.l[0].0).unwrap(), comp.l[0].1, false) }
            else { return Err(format!("no standard form for {}", k.k)) });
    }
    Ok((v, ar, jr, used, affine))
}

fn index_of(q: &M, s: &ModelStdProb) -> Vec<Option<usize>> { q.p.vars.iter().map(|v| s.var2index.get(v).copied()).collect() }

pub fn q20(c: &mut Ctx) -> R {
    let q = model(c, false)?;
    let s = q.m.std_problem();
    let (pl, na, nf, used, affine) = places(&q)?;
    let nslack = q.ks.iter().zip(&pl).filter(|(k, p)| k.kind != 0 && !matches!(p, Place::Bound(..))).count();
    let n = used.len() + nslack;
    ensure!(s.var2index.len() == n, "{} variables numbered, expected {} plus {} slacks", s.var2index.len(), used.len(), nslack);
    let mut seen = vec![false; n];
    for (v, i) in &s.var2index {
        ensure!(*i < n && !seen[*i], "index {} of {} out of range or used twice", i, v);
        seen[*i] = true;
    }
    let ix = index_of(&q, &s);
    for v in &used { ensure!(s.var2index.contains_key(v), "variable {} not numbered", v); }
    let (t, a, b, l, u, p, x0, cc, shape) = views(&s.prob);
    let integer: Vec<bool> = (0..n).map(|i| s.var2index.iter().any(|(v, j)| *j == i && matches!(v, Node::VariableScalar(x) if x.is_integer()))).collect();
    let int = integer.iter().any(|b| *b);
    let wt = match (affine, int) { (true, false) => 0, (true, true) => 1, (false, false) => 2, (false, true) => 3 };
    ensure!(t == wt, "problem kind {} instead of {}", ["LP", "MILP", "NLP", "MINLP"][t], ["LP", "MILP", "NLP", "MINLP"][wt]);
    ensure!(shape == (na, n) && b.len() == na && l.len() == n && u.len() == n, "shape {:?}, {} right-hand sides, {} bounds for {} rows and {} variables", shape, b.len(), l.len(), na, n);
    if let Some(p) = p { ensure!(p == integer, "integer marks {:?}, expected {:?}", p, integer); }
    let mut w0 = vec![0.; n];
    for (i, v) in q.init.iter().enumerate() { if let (Some(j), Some(v)) = (ix[i], v) { w0[j] = *v; } }
    ensure!(x0.as_ref() == Some(&w0), "initial point {:?}, expected {:?}", x0, w0);
    let model_col: Vec<Option<usize>> = (0..n).map(|j| ix.iter().position(|k| *k == Some(j))).collect();
    if let Some(cc) = cc {
        for _ in 0..2 {
            let x = point(&mut c.rng, q.p.vars.len());
            for j in 0..n {
                let w = match (&q.obj, model_col[j]) { (Some((max, _, e)), Some(i)) => eval(&diff(e, i), &x).map(|d| J { v: if *max { -d.v } else { d.v }, m: d.m }), _ => Some(J { v: 0., m: 0. }) };
                if let Some(w) = w { ensure!(close(cc[j], w.v, w.m), "objective coefficient {} is {:?}, expected {:?}", j, cc[j], w.v); }
            }
        }
    }
    // rows and bounds
    let mut wl = vec![-1e8; n];
    let mut wu = vec![1e8; n];
    let mut slack_seen = vec![false; n];
    ensure!(s.aindex2constr.len() == na && s.jindex2constr.len() == nf, "{} and {} rows mapped to constraints, {} and {} expected", s.aindex2constr.len(), s.jindex2constr.len(), na, nf);
    for (k, w) in q.ks.iter().zip(&pl) {
        match w {
            Place::Bound(i, val, up) => {
                let j = ix[*i].unwrap();
                if *up { if *val < wu[j] { wu[j] = *val; } } else if *val > wl[j] { wl[j] = *val; }
            }
            Place::Lin(r) => {
                ensure!(s.aindex2constr.get(r) == Some(&k.k), "linear row {} is not mapped to {}", r, k.k);
                let ent: Vec<&(usize, usize, f64)> = a.iter().filter(|e| e.0 == *r).collect();
                let sl: Vec<&&(usize, usize, f64)> = ent.iter().filter(|e| model_col[e.1].is_none()).collect();
                ensure!(sl.len() == (k.kind != 0) as usize && sl.iter().all(|e| e.2 == -1.), "slack entries of row {} for {}: {:?}", r, k.k, sl);
                if let Some(e) = sl.first() {
                    ensure!(!slack_seen[e.1], "slack {} used twice", e.1);
                    slack_seen[e.1] = true;
                    if k.kind == 1 { wu[e.1] = 0. } else { wl[e.1] = 0. }
                    let map = if k.kind == 1 { &s.uindex2constr } else { &s.lindex2constr };
                    ensure!(map.get(&e.1) == Some(&k.k), "bound of the slack of {} is not mapped to it", k.k);
                }
                for _ in 0..3 {
                    let x = point(&mut c.rng, q.p.vars.len());
                    if let Some(g) = eval(&k.d, &x) {
                        let (mut v, mut mag) = (-b[*r], b[*r].abs());
                        for e in &ent { if let Some(i) = model_col[e.1] { v += e.2 * x[i]; mag += (e.2 * x[i]).abs(); } }
                        ensure!(close(v, g.v, mag + g.m), "row {} for {} has residual {:?} at {:?}, expected {:?}", r, k.k, v, x, g.v);
                    }
                }
            }
            Place::Nl(r) => {
                ensure!(s.jindex2constr.get(r) == Some(&k.k), "nonlinear row {} is not mapped to {}", r, k.k);
                if k.kind != 0 {
                    let j = match &s.prob { Problem::Nlp(z) => same_mat(z.j()), Problem::Minlp(z) => same_mat(z.j()), _ => return Err("nonlinear row in a linear problem".to_string()) };
                    let sl: Vec<usize> = j.iter().filter(|e| e.0 == *r && model_col[e.1].is_none()).map(|e| e.1).collect();
                    ensure!(sl.len() == 1 && !slack_seen[sl[0]], "slack columns of nonlinear row {}: {:?}", r, sl);
                    slack_seen[sl[0]] = true;
                    if k.kind == 1 { wu[sl[0]] = 0. } else { wl[sl[0]] = 0. }
                    let map = if k.kind == 1 { &s.uindex2constr } else { &s.lindex2constr };
                    ensure!(map.get(&sl[0]) == Some(&k.k), "bound of the slack of {} is not mapped to it", k.k);
                }
            }
        }
    }
    ensure!(a.iter().all(|e| e.0 < na && e.1 < n), "entry outside the matrix");
    ensure!(l == wl, "lower bounds {:?}, expected {:?}", l, wl);
    ensure!(u == wu, "upper bounds {:?}, expected {:?}", u, wu);
    // bound maps: present for active bounds, and naming a constraint with that bound
    for (map, up) in [(&s.uindex2constr, true), (&s.lindex2constr, false)] {
        for (j, k) in map.iter() {
            ensure!(*j < n, "bound map has index {}", j);
            if model_col[*j].is_none() { continue; }
            let ok = q.ks.iter().zip(&pl).any(|(z, w)| z.k == *k && matches!(w, Place::Bound(i, v, b) if ix[*i] == Some(*j) && *b == up && *v == if up { u[*j] } else { l[*j] }));
            ensure!(ok, "{} bound {} is mapped to {}", if up { "upper" } else { "lower" }, j, k);
        }
        for w in &pl { if let Place::Bound(i, v, b) = w {
            let j = ix[*i].unwrap();
            if *b == up && v.abs() < 1e8 && *v == if up { u[j] } else { l[j] } { ensure!(map.contains_key(&j), "active {} bound {} of variable {} is not mapped", if up { "upper" } else { "lower" }, v, j); }
        } }
    }
    Ok(())
}

fn tri(m: &CooMat<f64>, what: &str) -> Result<HashMap<(usize, usize), f64>, String> {
    let mut h = HashMap::new();
    for (r, c, v) in m.iter() {
        ensure!(r >= c, "{}: entry ({}, {}) above the diagonal", what, r, c);
        ensure!(h.insert((*r, *c), *v).is_none(), "{}: entry ({}, {}) twice", what, r, c);
    }
    Ok(h)
}

pub fn q21(c: &mut Ctx) -> R {
    let q = model(c, false)?;
    c.nontrivial = false;
    let mut s = q.m.std_problem();
    let ix = index_of(&q, &s);
    let n = s.var2index.len();
    let (pl, _, _, _, _) = places(&q)?;
    let model_col: Vec<Option<usize>> = (0..n).map(|j| ix.iter().position(|k| *k == Some(j))).collect();
    let mut pat: Option<Vec<Vec<(usize, usize)>>> = None;
    let mut hist: Vec<Vec<f64>> = Vec::new();
    let mut out: Vec<Vec<Vec<f64>>> = Vec::new();
    for step in 0..c.rng.range(1, 6) {
        let x: Vec<f64> = if step > 1 && c.rng.chance(1, 2) { let k = c.rng.below(hist.len()); hist[k].clone() } else {
            let mut x = point(&mut c.rng, n);
            if n > 0 && c.rng.chance(1, 3) { let v = *c.rng.pick(&[0., 1., -1., 1e8, f64::NAN, f64::INFINITY]); for _ in 0..c.rng.range(1, 3) { let k = c.rng.below(n); x[k] = v; } }
            x
        };
        hist.push(x.clone());
        let mx: Vec<f64> = ix.iter().map(|i| i.map(|i| x[i]).unwrap_or(0.5)).collect();
        let (phi, gphi, hphi, f, j, h) = {
            macro_rules! get { ($z: expr) => {{ let z = $z; z.evaluate(&x); (z.phi(), z.gphi().to_vec(), z.hphi().clone_coo(), z.f().to_vec(), z.j().clone_coo(), z.h().iter().map(|m| m.clone_coo()).collect::<Vec<_>>()) }} }
            match &mut s.prob { Problem::Nlp(z) => get!(z), Problem::Minlp(z) => get!(z), _ => return Ok(()) }
        };
        c.nt();
        c.note(format!("evaluate at {:?} (model variables {:?})", x, mx));
        // nothing but the point matters
        let mut all: Vec<Vec<f64>> = vec![vec![phi], gphi.clone(), hphi.data().to_vec(), f.clone(), j.data().to_vec()];
        all.extend(h.iter().map(|m| m.data().to_vec()));
        for (ox, oa) in hist.iter().zip(&out) {
            if ox.iter().zip(&x).all(|(a, b)| a.to_bits() == b.to_bits()) {
                for (k, (a, b)) in oa.iter().zip(&all).enumerate() {
                    ensure!(a.len() == b.len() && a.iter().zip(b).all(|(u, v)| same(*u, *v)), "{} after other evaluations: {:?}, at first {:?}",
                        ["objective", "gradient", "objective Hessian", "rows", "Jacobian", "row Hessian"][k.min(5)], b, a);
                }
            }
        }
        out.push(all);
        if x.iter().any(|v| !v.is_finite()) { continue; }
        let mut pt: Vec<Vec<(usize, usize)>> = vec![pairs(&hphi), pairs(&j)];
        pt.extend(h.iter().map(pairs));
        match &pat { None => pat = Some(pt), Some(o) => ensure!(*o == pt, "sparsity pattern changed") }
        ensure!(gphi.len() == n, "gradient length");
        let nv = q.p.vars.len();
        let zero = k(0.);
        let (sg, e) = match &q.obj { Some((max, _, e)) => (if *max { -1. } else { 1. }, e), None => (1., &zero) };
        if let Some(g) = eval(e, &mx) {
            ensure!(close(phi, sg * g.v, g.m), "objective is {:?}, expected {:?}", phi, sg * g.v);
            for jx in 0..n {
                let w = match model_col[jx] { Some(i) => eval(&diff(e, i), &mx), None => Some(J { v: 0., m: 0. }) };
                if let Some(w) = w { ensure!(close(gphi[jx], sg * w.v, w.m + g.m), "gradient entry {} is {:?}, expected {:?}", jx, gphi[jx], sg * w.v); }
            }
            let mut list = HashMap::new();
            for ((a, b), v) in tri(&hphi, "objective Hessian")? {
                match (model_col[a], model_col[b]) { (Some(s), Some(t)) => { list.insert((s.max(t), s.min(t)), sg * v); } _ => ensure!(v == 0., "objective Hessian has slack entry") }
            }
            check_pairs("objective Hessian", nv, &list, e, &mx)?;
        }
        for (kk, w) in q.ks.iter().zip(&pl) {
            let r = match w { Place::Nl(r) => *r, _ => continue };
            let g = match eval(&kk.d, &mx) { Some(g) => g, None => continue };
            let slack = pairs(&j).into_iter().filter(|t| t.0 == r && model_col[t.1].is_none()).map(|t| t.1).next();
            let sv = slack.map(|s| x[s]).unwrap_or(0.);
            ensure!(close(f[r], g.v - sv, g.m + sv.abs()), "row {} for {} is {:?}, expected {:?}", r, kk.k, f[r], g.v - sv);
            let mut seen = HashSet::new();
            for (a, b, v) in j.iter().filter(|t| *t.0 == r) {
                ensure!(seen.insert(*b), "Jacobian row {} lists column {} twice", a, b);
                match model_col[*b] {
                    Some(i) => if let Some(d) = eval(&diff(&kk.d, i), &mx) { ensure!(close(*v, d.v, d.m + g.m), "Jacobian entry ({}, {}) is {:?}, expected {:?}", a, b, v, d.v); },
                    None => ensure!(*v == -1., "Jacobian slack entry is {:?}", v),
                }
            }
            for i in 0..nv { if let Some(b) = ix[i] { if !seen.contains(&b) { if let Some(d) = eval(&diff(&kk.d, i), &mx) { ensure!(close(0., d.v, d.m + g.m), "Jacobian entry ({}, {}) missing", r, b); } } } }
            let mut list = HashMap::new();
            for ((a, b), v) in tri(&h[r], "row Hessian")? {
                match (model_col[a], model_col[b]) { (Some(s), Some(t)) => { list.insert((s.max(t), s.min(t)), v); } _ => ensure!(v == 0., "row Hessian has slack entry") }
            }
            check_pairs(&format!("Hessian of row {} for {}", r, kk.k), nv, &list, &kk.d, &mx)?;
        }
    }
    Ok(())
}

fn pairs(m: &CooMat<f64>) -> Vec<(usize, usize)> { m.iter().map(|(r, c, _)| (*r, *c)).collect() }
trait CloneCoo { fn clone_coo(&self) -> CooMat<f64>; }
impl CloneCoo for CooMat<f64> {
    fn clone_coo(&self) -> CooMat<f64> {
        let v: Vec<(usize, usize, f64)> = same_mat(self);
        CooMat::new((self.rows(), self.cols()), v.iter().map(|t| t.0).collect(), v.iter().map(|t| t.1).collect(), v.iter().map(|t| t.2).collect())
    }
}

/// hands out prepared solutions, or an error
struct Scripted { params: HashMap<String, SolverParam>, seed: u64, fail: bool, status: usize, seen: RefCell<Option<(Problem2, ProblemSol2)>> }
type Problem2 = (Vec<f64>, Vec<(usize, usize, f64)>, Vec<(usize, usize)>);
type ProblemSol2 = (Vec<f64>, Vec<f64>, Vec<f64>, Vec<f64>, Vec<f64>);

impl Solver for Scripted {
    fn get_params(&self) -> &HashMap<String, SolverParam> { &self.params }
    fn get_params_mut(&mut self) -> &mut HashMap<String, SolverParam> { &mut self.params }
    fn solve(&self, p: &mut Problem) -> Result<(SolverStatus, ProblemSol), SimpleError> {
        let (_, a, b, l, _, _, x0, _, _) = views(p);
        let j = match p { Problem::Nlp(z) => pairs(z.j()), Problem::Minlp(z) => pairs(z.j()), _ => Vec::new() };
        let nf = match p { Problem::Nlp(z) => z.nf(), Problem::Minlp(z) => z.nf(), _ => 0 };
        let mut r = Rng::new(self.seed);
        let mut s = ProblemSol::new(l.len(), b.len(), nf);
        for v in [&mut s.x, &mut s.lam, &mut s.nu, &mut s.mu, &mut s.pi] { for y in v.iter_mut() { *y = r.unit() * 100. - 50.; } }
        let plain = r.chance(1, 2);
        for v in [&mut s.lam, &mut s.nu, &mut s.mu, &mut s.pi] { for y in v.iter_mut() { if !plain && r.chance(1, 2) { *y = *r.pick(&[0., 1., -1., 1e-12, -1e-12, 1e9, f64::INFINITY, f64::NEG_INFINITY]); } } }
        if !plain && !s.x.is_empty() { let k = r.below(s.x.len()); s.x[k] = *r.pick(&[0., 1e-13, -1e-13, 1e12, f64::INFINITY, f64::NEG_INFINITY]); }
        *self.seen.borrow_mut() = Some(((x0.unwrap_or_default(), a, j), (s.x.clone(), s.lam.clone(), s.nu.clone(), s.mu.clone(), s.pi.clone())));
        if self.fail { return Err(SimpleError::new("scripted failure")); }
        Ok((match self.status { 0 => SolverStatus::Solved, 1 => SolverStatus::Infeasible, 2 => SolverStatus::Error, _ => SolverStatus::Unknown }, s))
    }
}

pub fn q22(c: &mut Ctx) -> R {
    let mut q = model(c, true)?;
    let (pl, _, _, used, _) = places(&q)?;
    for _ in 0..c.rng.range(1, 3) {
        let sv = Scripted { params: HashMap::new(), seed: c.rng.u(), fail: c.rng.chance(1, 3), status: c.rng.below(4), seen: RefCell::new(None) };
        c.note(format!("solve with status {}{}", sv.status, if sv.fail { ", failing" } else { "" }));
        let before: Vec<Constraint> = q.m.constraints().iter().cloned().collect();
        let r = q.m.solve(&sv);
        ensure!(q.m.constraints().iter().cloned().collect::<Vec<_>>() == before, "constraints changed");
        match (q.m.objective(), &q.obj) {
            (Objective::Empty, None) => (),
            (Objective::Maximize(n), Some((true, o, _))) | (Objective::Minimize(n), Some((false, o, _))) => ensure!(n == o, "objective changed"),
            _ => return Err("objective changed".to_string()),
        }
        for (i, v) in q.p.vars.iter().enumerate() { ensure!(q.m.init_primals().get(v).copied() == q.init[i], "initial value changed"); }
        ensure!(q.m.init_primals().len() == q.p.vars.len() + 1, "initial values changed");
        let ((x0, a, j), (x, lam, nu, mu, pi)) = match sv.seen.borrow_mut().take() { Some(t) => t, None => return Err("solver not called".to_string()) };
        if sv.fail {
            ensure!(r.is_err(), "failed solve reported as success");
            ensure!(q.m.solver_status().is_none() && q.m.final_primals().is_empty() && q.m.final_duals().is_empty(), "results remain after a failed solve");
            continue;
        }
        ensure!(r.is_ok(), "solve failed");
        let ok = match (q.m.solver_status(), sv.status) {
            (Some(SolverStatus::Solved), 0) | (Some(SolverStatus::Infeasible), 1) | (Some(SolverStatus::Error), 2) | (Some(SolverStatus::Unknown), 3) => true, _ => false };
        ensure!(ok, "status differs from the solver's");
        let fp = q.m.final_primals();
        ensure!(fp.len() == x.len(), "{} primal values for {} variables", fp.len(), x.len());
        let pos = |i: usize| x0.iter().position(|v| *v == 1000. + i as f64);
        let mut rest: Vec<f64> = x.clone();
        for (i, v) in q.p.vars.iter().enumerate() {
            if !used.contains(v) { continue; }
            let k = match pos(i) { Some(k) => k, None => return Err(format!("variable {} not at its initial value", v)) };
            ensure!(fp.get(v).copied() == Some(x[k]), "final value of {} is {:?}, solver returned {:?}", v, fp.get(v), x[k]);
            rest.retain(|z| *z != x[k]);
        }
        let mut sl: Vec<f64> = fp.iter().filter(|(v, _)| q.p.var_index(v).is_none()).map(|t| *t.1).collect();
        sl.sort_by(|a, b| a.partial_cmp(b).unwrap());
        rest.sort_by(|a, b| a.partial_cmp(b).unwrap());
        ensure!(sl == rest, "slack values {:?}, solver returned {:?}", sl, rest);
        let fd = q.m.final_duals();
        for k in fd.keys() { ensure!(q.ks.iter().any(|z| z.k == **k), "dual for a foreign constraint"); }
        for (n, (kk, w)) in q.ks.iter().zip(&pl).enumerate() {
            if q.ks.iter().enumerate().any(|(m, z)| m != n && z.k == kk.k) { continue; }
            let foreign = |k: usize| x0[k] < 1000.;
            let want = match w {
                Place::Bound(i, val, up) => {
                    // only when no other bound ties or beats it
                    let rival = q.ks.iter().zip(&pl).enumerate().any(|(m, (_, z))| m != n && matches!(z, Place::Bound(i2, v2, u2) if i2 == i && u2 == up && if *up { v2 <= val } else { v2 >= val }));
                    if rival || val.abs() >= 1e8 { continue; }
                    let k = pos(*i).unwrap();
                    if *up { mu[k] } else { pi[k] }
                }
                Place::Lin(r) if kk.kind == 0 => lam[*r],
                Place::Nl(r) if kk.kind == 0 => nu[*r],
                Place::Lin(r) => {
                    let k = match a.iter().find(|e| e.0 == *r && foreign(e.1)) { Some(e) => e.1, None => return Err("row without slack".to_string()) };
                    if kk.kind == 1 { mu[k] } else { pi[k] }
                }
                Place::Nl(r) => {
                    let k = match j.iter().find(|e| e.0 == *r && foreign(e.1)) { Some(e) => e.1, None => return Err("row without slack".to_string()) };
                    if kk.kind == 1 { mu[k] } else { pi[k] }
                }
            };
            ensure!(fd.get(&kk.k).copied() == Some(want), "dual of {} is {:?}, solver returned {:?}", kk.k, fd.get(&kk.k), want);
        }
        // change the model between solves now and then
        let _ = &mut q;
    }
    Ok(())
}
