use crate::ensure;
use crate::matrix::{coo, entries, triples};
use crate::util::*;
use numopt::matrix::coo::CooMat;
use numopt::problem::{lp::ProblemLp, milp::ProblemMilp, minlp::ProblemMinlp, nlp::ProblemNlp};
use std::cell::RefCell;
use std::rc::Rc;

type Trip = Vec<(usize, usize, f64)>;

#[derive(Clone, Debug)]
pub struct Lin {
    pub nx: usize, pub na: usize,
    pub c: Vec<f64>, pub a: Trip, pub b: Vec<f64>, pub l: Vec<f64>, pub u: Vec<f64>, pub p: Vec<bool>, pub x0: Option<Vec<f64>>,
}

pub fn lin(c: &mut Ctx) -> Lin {
    let z = c.size;
    let r = &mut c.rng;
    let lo = !r.chance(1, 12) as usize;
    let nx = r.range(lo, z.max(1));
    let na = r.range(0, z.min(5));
    let a = entries(r, z, na, nx);
    let v = |r: &mut Rng, n: usize| -> Vec<f64> { (0..n).map(|_| r.num()).collect() };
    let cc = v(r, nx);
    let b = v(r, na);
    let l: Vec<f64> = v(r, nx);
    let u = l.iter().map(|x| x + r.num().abs()).collect();
    let p = (0..nx).map(|_| r.chance(1, 2)).collect();
    let x0 = if r.chance(1, 3) { None } else { Some(v(r, nx)) };
    Lin { nx, na, c: cc, a, b, l, u, p, x0 }
}

pub fn milp(d: &Lin) -> ProblemMilp {
    ProblemMilp::new(d.c.clone(), coo((d.na, d.nx), &d.a), d.b.clone(), d.l.clone(), d.u.clone(), d.p.clone(), d.x0.clone())
}
pub fn lp(d: &Lin) -> ProblemLp {
    ProblemLp::new(d.c.clone(), coo((d.na, d.nx), &d.a), d.b.clone(), d.l.clone(), d.u.clone(), d.x0.clone())
}

fn mat_is(m: &CooMat<f64>, s: (usize, usize), t: &Trip, what: &str) -> R {
    ensure!(m.rows() == s.0 && m.cols() == s.1, "{} has shape ({},{}), expected {:?}", what, m.rows(), m.cols(), s);
    let g = triples(m);
    ensure!(g.len() == t.len() && g.iter().zip(t).all(|(a, b)| a.0 == b.0 && a.1 == b.1 && same(a.2, b.2)), "{} is {:?}, expected {:?}", what, g, t);
    Ok(())
}

/// data of a nonlinear problem, and of what its evaluation writes
#[derive(Clone, Debug)]
pub struct Nl { pub d: Lin, pub nf: usize, pub hphi: Trip, pub j: Trip, pub h: Vec<Trip> }

pub fn nl(c: &mut Ctx) -> Nl {
    let d = lin(c);
    let z = c.size;
    let nf = c.rng.range(0, z.min(4));
    let hphi = entries(&mut c.rng, z / 2, d.nx, d.nx);
    let j = entries(&mut c.rng, z, nf, d.nx);
    let h = (0..nf).map(|_| { let s = c.rng.range(0, 3); entries(&mut c.rng, s, d.nx, d.nx) }).collect();
    Nl { d, nf, hphi, j, h }
}

/// what the k-th evaluation at x writes into buffer element i of buffer b: depends on the
/// previous content for b = 0 (phi) so that lost buffers show
pub fn wr(b: usize, i: usize, x: &[f64]) -> f64 {
    let s: f64 = x.iter().enumerate().map(|(k, v)| v * ((k + b) % 5 + 1) as f64).sum();
    s * 0.5 + (b * 10 + i) as f64 + 0.25
}

pub type Rec = Rc<RefCell<Vec<Vec<f64>>>>;

pub fn evalfn(rec: Rec) -> Box<dyn Fn(&mut f64, &mut Vec<f64>, &mut CooMat<f64>, &mut Vec<f64>, &mut CooMat<f64>, &mut Vec<CooMat<f64>>, &[f64])> {
    Box::new(move |phi: &mut f64, g: &mut Vec<f64>, hp: &mut CooMat<f64>, f: &mut Vec<f64>, j: &mut CooMat<f64>, h: &mut Vec<CooMat<f64>>, x: &[f64]| {
        rec.borrow_mut().push(x.to_vec());
        *phi = *phi * 0.5 + wr(0, 0, x);
        for (i, v) in g.iter_mut().enumerate() { *v = wr(1, i, x); }
        for (i, v) in hp.data_mut().iter_mut().enumerate() { *v = wr(2, i, x); }
        for (i, v) in f.iter_mut().enumerate() { *v = wr(3, i, x); }
        for (i, v) in j.data_mut().iter_mut().enumerate() { *v = wr(4, i, x); }
        for (k, hh) in h.iter_mut().enumerate() { for (i, v) in hh.data_mut().iter_mut().enumerate() { *v = wr(5 + k, i, x); } }
    })
}

pub fn mk_nlp(d: &Nl, rec: Rec) -> ProblemNlp {
    let n = d.d.nx;
    ProblemNlp::new(coo((n, n), &d.hphi), coo((d.d.na, n), &d.d.a), d.d.b.clone(), coo((d.nf, n), &d.j),
        d.h.iter().map(|t| coo((n, n), t)).collect(), d.d.l.clone(), d.d.u.clone(), d.d.x0.clone(), evalfn(rec))
}
pub fn mk_minlp(d: &Nl, rec: Rec) -> ProblemMinlp {
    let n = d.d.nx;
    ProblemMinlp::new(coo((n, n), &d.hphi), coo((d.d.na, n), &d.d.a), d.d.b.clone(), coo((d.nf, n), &d.j),
        d.h.iter().map(|t| coo((n, n), t)).collect(), d.d.l.clone(), d.d.u.clone(), d.d.p.clone(), d.d.x0.clone(), evalfn(rec))
}

macro_rules! nlview { ($q: expr, $d: expr, $what: expr) => {
    let (q, d) = (&$q, $d);
    let n = d.d.nx;
    mat_is(q.a(), (d.d.na, n), &d.d.a, concat!($what, " a"))?;
    ensure!(q.b() == &d.d.b[..] && q.l() == &d.d.l[..] && q.u() == &d.d.u[..], concat!($what, " reports b, l, u {:?} {:?} {:?}"), q.b(), q.l(), q.u());
    ensure!(q.x0() == d.d.x0.as_ref().map(|x| &x[..]), concat!($what, " x0 is {:?}"), q.x0());
    ensure!(q.nx() == n && q.na() == d.d.na && q.nf() == d.nf, concat!($what, " dimensions {} {} {}"), q.nx(), q.na(), q.nf());
    ensure!(q.f().len() == d.nf && q.gphi().len() == n, concat!($what, " buffers have lengths {} {}"), q.f().len(), q.gphi().len());
    mat_is(q.hphi(), (n, n), &d.hphi, concat!($what, " hphi"))?;
    mat_is(q.j(), (d.nf, n), &d.j, concat!($what, " j"))?;
    ensure!(q.h().len() == d.nf, concat!($what, " has {} constraint Hessians"), q.h().len());
    for (i, hh) in q.h().iter().enumerate() { mat_is(hh, (n, n), &d.h[i], concat!($what, " h"))?; }
} }

macro_rules! linview { ($q: expr, $d: expr, $what: expr) => {
    let (q, d) = (&$q, $d);
    mat_is(q.a(), (d.na, d.nx), &d.a, concat!($what, " a"))?;
    ensure!(q.c() == &d.c[..], concat!($what, " c is {:?}"), q.c());
    ensure!(q.b() == &d.b[..] && q.l() == &d.l[..] && q.u() == &d.u[..], concat!($what, " b, l, u are {:?} {:?} {:?}"), q.b(), q.l(), q.u());
    ensure!(q.x0() == d.x0.as_ref().map(|x| &x[..]), concat!($what, " x0 is {:?}"), q.x0());
    ensure!(q.nx() == d.nx && q.na() == d.na, concat!($what, " dimensions are {} {}"), q.nx(), q.na());
} }

fn asnl(d: &Lin) -> Nl { Nl { d: d.clone(), nf: 0, hphi: vec![], j: vec![], h: vec![] } }

macro_rules! evlin { ($q: expr, $d: expr, $r: expr, $what: expr) => {{
    let x: Vec<f64> = (0..$d.nx).map(|_| $r.num()).collect();
    $q.evaluate(&x);
    let want: f64 = $d.c.iter().zip(&x).map(|(a, b)| a * b).sum();
    let mag: f64 = $d.c.iter().zip(&x).map(|(a, b)| (a * b).abs()).sum();
    ensure!(close($q.phi(), want, mag), concat!($what, ": objective at {:?} is {:?}, expected {:?}"), x, $q.phi(), want);
    ensure!($q.gphi() == &$d.c[..], concat!($what, ": gradient at {:?} is {:?}"), x, $q.gphi());
    ensure!($q.hphi().nnz() == 0 && $q.j().nnz() == 0 && $q.f().len() == 0, concat!($what, ": nonlinear parts appear"));
}} }

pub fn p04(c: &mut Ctx) -> R {
    match c.rng.below(4) {
        0 => {
            let d = lin(c);
            c.note(format!("lp {:?}", d));
            if d.nx > 0 { c.nt(); }
            let mut dd = d.clone();
            dd.p = vec![false; d.nx];
            let mut q = lp(&d);
            for _ in 0..3 {
                linview!(q, &d, "lp");
                { let m = q.as_mut_milp(); linview!(*m, &dd, "lp as milp"); ensure!(m.p() == &dd.p[..], "lp as milp has integers"); }
                { let m = q.as_mut_minlp(); nlview!(*m, &asnl(&dd), "lp as minlp"); ensure!(m.p() == &dd.p[..], "lp as minlp has integers"); }
                { let m = q.as_mut_nlp(); nlview!(*m, &asnl(&dd), "lp as nlp"); }
                match c.rng.below(3) {
                    0 => { let m = q.as_mut_nlp(); evlin!(m, d, c.rng, "lp as nlp"); }
                    1 => { let m = q.as_mut_minlp(); evlin!(m, d, c.rng, "lp as minlp"); }
                    _ => { let m = q.as_mut_milp().as_mut_minlp(); evlin!(m, d, c.rng, "lp as milp as minlp"); }
                }
            }
        }
        1 => {
            let d = lin(c);
            c.note(format!("milp {:?}", d));
            if d.nx > 0 { c.nt(); }
            let mut q = milp(&d);
            for _ in 0..3 {
                linview!(q, &d, "milp");
                ensure!(q.p() == &d.p[..], "milp p is {:?}", q.p());
                { let m = q.as_mut_minlp(); nlview!(*m, &asnl(&d), "milp as minlp"); ensure!(m.p() == &d.p[..], "milp as minlp p is {:?}", m.p()); evlin!(m, d, c.rng, "milp as minlp"); }
            }
        }
        w => {
            let mut d = nl(c);
            c.note(format!("{} {:?}", if w == 2 { "nlp" } else { "minlp" }, d));
            if d.d.nx > 0 { c.nt(); }
            let rec: Rec = Rc::new(RefCell::new(Vec::new()));
            let mut n = mk_nlp(&d, rec.clone());
            let mut m = mk_minlp(&d, rec.clone());
            if w == 2 { d.d.p = vec![false; d.d.nx]; }
            let mut phi = 0.;
            for round in 0..4 {
                if w == 2 {
                    nlview!(n, &d, "nlp");
                    ensure!(same(n.phi(), phi), "nlp phi is {:?}, expected {:?}", n.phi(), phi);
                    { let v = n.as_mut_minlp(); nlview!(*v, &d, "nlp as minlp"); ensure!(v.p() == &d.d.p[..], "nlp has integers"); ensure!(same(v.phi(), phi), "nlp as minlp phi"); }
                } else {
                    nlview!(m, &d, "minlp");
                    ensure!(m.p() == &d.d.p[..], "minlp p is {:?}", m.p());
                    ensure!(same(m.phi(), phi), "minlp phi is {:?}, expected {:?}", m.phi(), phi);
                }
                let x: Vec<f64> = (0..d.d.nx).map(|_| c.rng.small()).collect();
                c.note(format!("evaluate {:?}", x));
                if w == 2 { if c.rng.chance(1, 3) { n.as_mut_minlp().evaluate(&x) } else { n.evaluate(&x) } } else { m.evaluate(&x) }
                ensure!(rec.borrow().len() == round + 1 && rec.borrow()[round] == x, "user function was handed {:?} at evaluation {}", rec.borrow(), round + 1);
                phi = phi * 0.5 + wr(0, 0, &x);
                for (i, t) in d.hphi.iter_mut().enumerate() { t.2 = wr(2, i, &x); }
                for (i, t) in d.j.iter_mut().enumerate() { t.2 = wr(4, i, &x); }
                for (k, h) in d.h.iter_mut().enumerate() { for (i, t) in h.iter_mut().enumerate() { t.2 = wr(5 + k, i, &x); } }
                let (g, f): (Vec<f64>, Vec<f64>) = if w == 2 { (n.gphi().to_vec(), n.f().to_vec()) } else { (m.gphi().to_vec(), m.f().to_vec()) };
                ensure!(g.iter().enumerate().all(|(i, v)| same(*v, wr(1, i, &x))), "gradient after evaluation is {:?}", g);
                ensure!(f.iter().enumerate().all(|(i, v)| same(*v, wr(3, i, &x))), "constraint values after evaluation are {:?}", f);
            }
        }
    }
    // inconsistent dimensions are rejected
    if c.rng.chance(1, 3) {
        let d = nl(c);
        let n = d.d.nx;
        let which = c.rng.below(11);
        let up = c.rng.chance(1, 2);
        let ch = |v: &Vec<f64>| -> Vec<f64> { let mut v = v.clone(); if up || v.is_empty() { v.push(1.) } else { v.pop(); } v };
        let mut e = d.clone();
        let (mut sh, mut sj, mut sc, mut extra) = ((n, n), (d.nf, n), (n, n), false);
        let mut p = d.d.p.clone();
        match which {
            0 => e.d.b = ch(&d.d.b),
            1 => e.d.l = ch(&d.d.l),
            2 => e.d.u = ch(&d.d.u),
            3 => if up || p.is_empty() { p.push(true) } else { p.pop(); },
            4 => sh = (n + 1, n),
            5 => sh = (n, n + 1),
            6 => sj = (d.nf, n + 1),
            7 => sj = (d.nf + 1, n),
            8 => { if d.nf == 0 { extra = true } else { sc = (n + 1, n) } }
            9 => { if d.nf == 0 { extra = true } else { sc = (n, n + 1) } }
            _ => extra = true,
        }
        c.note(format!("inconsistent variant {} up {} of {:?}", which, up, d));
        let mk = |int: bool| {
            let mut hs: Vec<CooMat<f64>> = e.h.iter().enumerate().map(|(i, t)| coo(if i == 0 { sc } else { (n, n) }, t)).collect();
            if extra { hs.push(CooMat::from_nnz((n, n), 0)); }
            let rec: Rec = Rc::new(RefCell::new(Vec::new()));
            let (hm, am, jm) = (coo(sh, &e.hphi), coo((d.d.na, n), &e.d.a), coo(sj, &e.j));
            if int { ProblemMinlp::new(hm, am, e.d.b.clone(), jm, hs, e.d.l.clone(), e.d.u.clone(), p.clone(), None, evalfn(rec)); }
            else { ProblemNlp::new(hm, am, e.d.b.clone(), jm, hs, e.d.l.clone(), e.d.u.clone(), None, evalfn(rec)); }
        };
        ensure!(panics(|| mk(true)), "minlp with inconsistent dimensions accepted");
        if which != 3 { ensure!(panics(|| mk(false)), "nlp with inconsistent dimensions accepted"); }
        if which <= 2 { ensure!(panics(|| lp(&e.d)), "lp with inconsistent dimensions accepted"); }
        if which <= 2 { ensure!(panics(|| milp(&e.d)), "milp with inconsistent dimensions accepted"); }
        if which == 3 { e.d.p = p.clone(); ensure!(panics(|| milp(&e.d)), "milp with inconsistent integer marks accepted"); }
    }
    Ok(())
}

/// dense sum of weighted matrices
fn dense(n: usize, ts: &[(f64, Trip)]) -> Vec<f64> {
    let mut o = vec![0.; n * n];
    for (w, t) in ts { for (i, j, v) in t { o[i * n + j] += w * v; } }
    o
}

pub fn p05(c: &mut Ctx) -> R {
    let mut d = nl(c);
    let n = d.d.nx;
    if d.h.iter().any(|h| !h.is_empty()) { c.nt(); }
    c.note(format!("n {} Hessians {:?}", n, d.h));
    let rec: Rec = Rc::new(RefCell::new(Vec::new()));
    let asn = c.rng.chance(1, 2);
    let mut q1 = mk_nlp(&d, rec.clone());
    let mut q2 = mk_minlp(&d, rec.clone());
    if asn { d.d.p = vec![false; n]; }
    let pattern: Vec<(usize, usize)> = d.h.iter().flat_map(|h| h.iter().map(|t| (t.0, t.1))).collect();
    macro_rules! hc { () => { if asn { triples(q1.hcomb()) } else { triples(q2.hcomb()) } } }
    let pat = |t: &Trip| -> Vec<(usize, usize)> { t.iter().map(|x| (x.0, x.1)).collect() };
    ensure!(pat(&hc!()) == pattern, "pattern from construction is {:?}", pat(&hc!()));
    {
        let (r, cc) = if asn { (q1.hcomb().rows(), q1.hcomb().cols()) } else { (q2.hcomb().rows(), q2.hcomb().cols()) };
        ensure!((r, cc) == (n, n), "combined Hessian has shape ({},{})", r, cc);
    }
    for _ in 0..5 {
        if c.rng.chance(1, 2) {
            let x: Vec<f64> = (0..n).map(|_| c.rng.small()).collect();
            c.note(format!("evaluate {:?}", x));
            if asn { q1.evaluate(&x) } else { q2.evaluate(&x) }
            for (k, h) in d.h.iter_mut().enumerate() { for (i, t) in h.iter_mut().enumerate() { t.2 = wr(5 + k, i, &x); } }
            ensure!(pat(&hc!()) == pattern, "pattern after evaluation is {:?}", pat(&hc!()));
        } else {
            let nu: Vec<f64> = (0..d.nf).map(|_| c.rng.small()).collect();
            c.note(format!("combine {:?}", nu));
            macro_rules! snap { ($q: expr) => { (
                $q.phi(), $q.gphi().to_vec(), triples($q.hphi()), $q.f().to_vec(), triples($q.j()),
                $q.h().iter().map(|h| triples(h)).collect::<Vec<_>>(), triples($q.a()), $q.b().to_vec(), $q.l().to_vec(), $q.u().to_vec()
            ) } }
            let before = if asn { snap!(q1) } else { snap!(q2) };
            if asn { if c.rng.chance(1, 3) { q1.as_mut_minlp().combine_h(&nu) } else { q1.combine_h(&nu) } } else { q2.combine_h(&nu) }
            let after = if asn { snap!(q1) } else { snap!(q2) };
            ensure!(format!("{:?}", before) == format!("{:?}", after), "combining changed other data: {:?} -> {:?}", before, after);
            let t = hc!();
            ensure!(pat(&t) == pattern, "pattern after combination is {:?}", pat(&t));
            let got = dense(n, &[(1., t.clone())]);
            let ws: Vec<(f64, Trip)> = nu.iter().cloned().zip(d.h.iter().cloned()).collect();
            let want = dense(n, &ws);
            for i in 0..n * n { ensure!(close(got[i], want[i], 1e3), "combined Hessian entry ({},{}) is {:?}, expected {:?}; {:?}", i / n, i % n, got[i], want[i], t); }
            if c.rng.chance(1, 4) {
                let mut w = nu.clone();
                if c.rng.chance(1, 2) || w.is_empty() { w.push(1.) } else { w.pop(); }
                ensure!(panics(|| if asn { q1.combine_h(&w) } else { q2.combine_h(&w) }), "combination with {} multipliers accepted", w.len());
                break;
            }
        }
    }
    Ok(())
}
