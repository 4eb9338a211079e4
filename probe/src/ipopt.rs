//! A stand-in for libipopt: captures what the interface passes, drives its callbacks.
#![allow(non_snake_case)]
use crate::ensure;
use crate::matrix::coo;
use crate::problems::{lin, lp, milp, mk_minlp, nl, wr, Lin, Nl, Rec};
use crate::util::*;
use libc::{c_char, c_double, c_int, c_void};
use numopt::matrix::coo::CooMat;
use numopt::problem::base::Problem;
use numopt::problem::nlp::ProblemNlp;
use numopt::solver::*;
use std::cell::RefCell;
use std::ffi::CStr;

type F = extern "C" fn(c_int, *const c_double, c_int, *mut c_double, *mut c_void) -> c_int;
type GF = extern "C" fn(c_int, *const c_double, c_int, *mut c_double, *mut c_void) -> c_int;
type G = extern "C" fn(c_int, *const c_double, c_int, c_int, *mut c_double, *mut c_void) -> c_int;
type JG = extern "C" fn(c_int, *const c_double, c_int, c_int, c_int, *mut c_int, *mut c_int, *mut c_double, *mut c_void) -> c_int;
type HH = extern "C" fn(c_int, *const c_double, c_int, c_double, c_int, *const c_double, c_int, c_int, *mut c_int, *mut c_int, *mut c_double, *mut c_void) -> c_int;

#[derive(Clone)]
struct Cb { f: F, g: G, gf: GF, jg: JG, h: HH }

#[derive(Default)]
struct St {
    n: c_int, m: c_int, nj: c_int, nh: c_int, style: c_int,
    xl: Vec<f64>, xu: Vec<f64>, gl: Vec<f64>, gu: Vec<f64>,
    cb: Option<Cb>,
    created: usize, freed: usize, freed_other: usize, solved: usize,
    ints: Vec<(String, c_int)>, strs: Vec<(String, String)>,
    x_init: Vec<f64>,
    after_free: bool,
    // script
    fail_create: bool, fail_int: bool, fail_str: bool,
    code: c_int, x: Vec<f64>, mg: Vec<f64>, ml: Vec<f64>, mu: Vec<f64>,
    drive: Option<Box<dyn FnOnce(Cb, *mut c_void) -> R>>,
    result: Option<R>,
}

thread_local! { static S: RefCell<St> = RefCell::new(St::default()); }
const HANDLE: usize = 0x5150;

unsafe fn vec(p: *const c_double, n: c_int) -> Vec<f64> { if p.is_null() || n <= 0 { Vec::new() } else { std::slice::from_raw_parts(p, n as usize).to_vec() } }

#[no_mangle]
pub extern "C" fn CreateIpoptProblem(n: c_int, xl: *const c_double, xu: *const c_double, m: c_int, gl: *const c_double, gu: *const c_double,
    nj: c_int, nh: c_int, style: c_int, f: F, g: G, gf: GF, jg: JG, h: HH) -> *mut c_void {
    S.with(|s| {
        let mut s = s.borrow_mut();
        if s.fail_create { return std::ptr::null_mut(); }
        s.created += 1;
        unsafe { s.xl = vec(xl, n); s.xu = vec(xu, n); s.gl = vec(gl, m); s.gu = vec(gu, m); }
        s.n = n; s.m = m; s.nj = nj; s.nh = nh; s.style = style;
        s.cb = Some(Cb { f, g, gf, jg, h });
        HANDLE as *mut c_void
    })
}
#[no_mangle]
pub extern "C" fn FreeIpoptProblem(p: *mut c_void) {
    S.with(|s| { let mut s = s.borrow_mut(); if p as usize == HANDLE { s.freed += 1 } else { s.freed_other += 1 } })
}
#[no_mangle]
pub extern "C" fn AddIpoptIntOption(p: *mut c_void, k: *const c_char, v: c_int) -> c_int {
    S.with(|s| {
        let mut s = s.borrow_mut();
        if p as usize != HANDLE || s.freed > 0 { s.after_free = true; }
        if s.fail_int { return 0; }
        let k = unsafe { CStr::from_ptr(k) }.to_string_lossy().to_string();
        s.ints.push((k, v));
        1
    })
}
#[no_mangle]
pub extern "C" fn AddIpoptStrOption(p: *mut c_void, k: *const c_char, v: *const c_char) -> c_int {
    S.with(|s| {
        let mut s = s.borrow_mut();
        if p as usize != HANDLE || s.freed > 0 { s.after_free = true; }
        if s.fail_str { return 0; }
        let (k, v) = unsafe { (CStr::from_ptr(k).to_string_lossy().to_string(), CStr::from_ptr(v).to_string_lossy().to_string()) };
        s.strs.push((k, v));
        1
    })
}
#[no_mangle]
pub extern "C" fn IpoptSolve(p: *mut c_void, x: *mut c_double, g: *mut c_double, obj: *mut c_double, mg: *mut c_double, ml: *mut c_double, mu: *mut c_double, ud: *mut c_void) -> c_int {
    let _ = (g, obj);
    let (cb, drive) = S.with(|s| {
        let mut s = s.borrow_mut();
        if p as usize != HANDLE || s.freed > 0 { s.after_free = true; }
        s.solved += 1;
        s.x_init = unsafe { vec(x, s.n) };
        (s.cb.clone().unwrap(), s.drive.take())
    });
    if let Some(d) = drive {
        let r = d(cb, ud);
        S.with(|s| s.borrow_mut().result = Some(r));
    }
    S.with(|s| {
        let s = s.borrow();
        unsafe {
            let put = |p: *mut c_double, v: &Vec<f64>| if !p.is_null() { std::ptr::copy(v.as_ptr(), p, v.len()) };
            put(x, &s.x); put(mg, &s.mg); put(ml, &s.ml); put(mu, &s.mu);
        }
        s.code
    })
}

fn reset() { S.with(|s| *s.borrow_mut() = St::default()); }

/// evaluation results: some points have values that are not finite numbers
fn pv(k: usize, i: usize, x: &[f64]) -> f64 {
    let w = wr(k, i, x);
    let mut h = k as u64 * 31 + i as u64 + 7;
    for v in x { h = (h ^ v.to_bits()).wrapping_mul(0x9e3779b97f4a7c15); h ^= h >> 29; }
    match h % 19 { 0 => f64::INFINITY, 1 => f64::NEG_INFINITY, 2 => f64::NAN, _ => w }
}

/// a nonlinear problem whose evaluation is a function of the point alone
fn pure_nlp(d: &Nl) -> ProblemNlp {
    let n = d.d.nx;
    ProblemNlp::new(coo((n, n), &d.hphi), coo((d.d.na, n), &d.d.a), d.d.b.clone(), coo((d.nf, n), &d.j),
        d.h.iter().map(|t| coo((n, n), t)).collect(), d.d.l.clone(), d.d.u.clone(), d.d.x0.clone(),
        Box::new(|phi: &mut f64, g: &mut Vec<f64>, hp: &mut CooMat<f64>, f: &mut Vec<f64>, j: &mut CooMat<f64>, h: &mut Vec<CooMat<f64>>, x: &[f64]| {
            *phi = pv(0, 0, x);
            for (i, v) in g.iter_mut().enumerate() { *v = pv(1, i, x); }
            for (i, v) in hp.data_mut().iter_mut().enumerate() { *v = pv(2, i, x); }
            for (i, v) in f.iter_mut().enumerate() { *v = pv(3, i, x); }
            for (i, v) in j.data_mut().iter_mut().enumerate() { *v = pv(4, i, x); }
            for (k, hh) in h.iter_mut().enumerate() { for (i, v) in hh.data_mut().iter_mut().enumerate() { *v = pv(5 + k, i, x); } }
        }))
}

const CANARY: f64 = 777.5;
const ICANARY: c_int = -7777;

fn drive(mut c: Ctx, d: Nl, is_lp: bool) -> Box<dyn FnOnce(Cb, *mut c_void) -> R> {
    Box::new(move |cb: Cb, ud: *mut c_void| -> R {
        let (n, na, nf) = (d.d.nx, d.d.na, d.nf);
        let m = na + nf;
        let nnzj = d.d.a.len() + d.j.len();
        let nnzh = d.hphi.len() + d.h.iter().map(|h| h.len()).sum::<usize>();
        let phi = |x: &[f64]| if is_lp { d.d.c.iter().zip(x).map(|(a, b)| a * b).sum() } else { pv(0, 0, x) };
        let gphi = |i: usize, x: &[f64]| if is_lp { d.d.c[i] } else { pv(1, i, x) };
        let mut x: Vec<f64> = (0..n).map(|_| c.rng.small()).collect();
        let mut fresh = true;   // x not yet evaluated by the interface
        let mut jpat: Option<Vec<(c_int, c_int)>> = None;
        let mut hpat: Option<Vec<(c_int, c_int)>> = None;
        let mut log: Vec<String> = Vec::new();
        macro_rules! chk { ($cond: expr, $($a: tt)*) => { if !$cond { return Err(format!("{}; requests {:?}", format!($($a)*), log)); } } }
        for _ in 0..c.rng.range(3, 6 + 2 * c.size) {
            let kind = c.rng.below(7);
            let lam: Vec<f64> = (0..m).map(|_| c.rng.small()).collect();
            let sigma = c.rng.small();
            if c.rng.chance(1, 2) { x = (0..n).map(|_| c.rng.small()).collect(); fresh = true; }
            let newx: c_int = if fresh || c.rng.chance(1, 3) { 1 } else { 0 };
            let newl: c_int = c.rng.below(2) as c_int;
            // refusals
            if c.rng.chance(1, 4) {
                let which = c.rng.below(6);
                let mut buf = vec![CANARY; n.max(m).max(nnzj).max(nnzh) + 4];
                let mut ir = vec![ICANARY; nnzj.max(nnzh) + 4];
                let mut jc = ir.clone();
                let dl: c_int = if c.rng.chance(1, 2) { 1 } else { -1 };
                let wn = match c.rng.below(3) { 0 => -1, 1 => n as c_int + 1, _ => n as c_int + dl };
                let (n_, m_, z) = (n as c_int, m as c_int, c.rng.below(3));
                let mut y = vec![3.25; n + 2];
                for v in y.iter_mut() { *v = c.rng.small(); }
                let null = std::ptr::null_mut::<c_double>();
                let (nn, mm, zj, zh) = match z { 0 => (wn, m_, nnzj as c_int, nnzh as c_int), 1 => (n_, m_ + dl, nnzj as c_int, nnzh as c_int), _ => (n_, m_, nnzj as c_int + dl, nnzh as c_int + dl) };
                let values = c.rng.chance(1, 2);
                let lamx: Vec<f64> = (0..m + 2).map(|_| 1.).collect();
                let r = match which {
                    0 => { log.push(format!("f refused n {}", wn)); (cb.f)(wn, y.as_ptr(), 1, buf.as_mut_ptr(), ud) }
                    1 => { log.push(format!("grad refused n {}", wn)); (cb.gf)(wn, y.as_ptr(), 1, buf.as_mut_ptr(), ud) }
                    2 => { if z == 2 { continue; } log.push(format!("g refused {} {}", nn, mm)); (cb.g)(nn, y.as_ptr(), 1, mm, buf.as_mut_ptr(), ud) }
                    3 => { log.push(format!("jac refused {} {} {}", nn, mm, zj)); (cb.jg)(nn, y.as_ptr(), 1, mm, zj, ir.as_mut_ptr(), jc.as_mut_ptr(), if values { buf.as_mut_ptr() } else { null }, ud) }
                    4 => { log.push(format!("h refused {} {} {}", nn, mm, zh)); (cb.h)(nn, y.as_ptr(), 1, 1., mm, lamx.as_ptr(), 1, zh, ir.as_mut_ptr(), jc.as_mut_ptr(), if values { buf.as_mut_ptr() } else { null }, ud) }
                    _ => {
                        let w = c.rng.below(12);
                        log.push(format!("null buffer {}", w));
                        let cn = std::ptr::null::<c_double>();
                        let ni = std::ptr::null_mut::<c_int>();
                        let nv = std::ptr::null_mut::<c_void>();
                        match w {
                            0 => (cb.f)(n_, cn, 1, buf.as_mut_ptr(), ud),
                            1 => (cb.f)(n_, y.as_ptr(), 0, null, ud),
                            2 => (cb.gf)(n_, cn, 1, buf.as_mut_ptr(), ud),
                            3 => (cb.gf)(n_, y.as_ptr(), 0, null, ud),
                            4 => (cb.g)(n_, cn, 1, m_, buf.as_mut_ptr(), ud),
                            5 => (cb.g)(n_, y.as_ptr(), 0, m_, null, ud),
                            6 => (cb.jg)(n_, cn, 0, m_, nnzj as c_int, ni, jc.as_mut_ptr(), null, ud),
                            7 => (cb.jg)(n_, cn, 0, m_, nnzj as c_int, ir.as_mut_ptr(), ni, null, ud),
                            8 => (cb.jg)(n_, cn, 1, m_, nnzj as c_int, ni, ni, buf.as_mut_ptr(), ud),
                            9 => (cb.h)(n_, cn, 0, 1., m_, lam.as_ptr(), 0, nnzh as c_int, ni, jc.as_mut_ptr(), null, ud),
                            10 => (cb.h)(n_, cn, 1, 1., m_, lam.as_ptr(), 0, nnzh as c_int, ni, ni, buf.as_mut_ptr(), ud),
                            _ => match c.rng.below(5) {
                                0 => (cb.f)(n_, y.as_ptr(), 1, buf.as_mut_ptr(), nv),
                                1 => (cb.gf)(n_, y.as_ptr(), 1, buf.as_mut_ptr(), nv),
                                2 => (cb.g)(n_, y.as_ptr(), 1, m_, buf.as_mut_ptr(), nv),
                                3 => (cb.jg)(n_, y.as_ptr(), 1, m_, nnzj as c_int, ir.as_mut_ptr(), jc.as_mut_ptr(), buf.as_mut_ptr(), nv),
                                _ => (cb.h)(n_, y.as_ptr(), 1, 1., m_, lam.as_ptr(), 1, nnzh as c_int, ir.as_mut_ptr(), jc.as_mut_ptr(), buf.as_mut_ptr(), nv),
                            },
                        }
                    }
                };
                chk!(r == 0, "request that must be refused returned {}", r);
                chk!(buf.iter().all(|v| *v == CANARY) && ir.iter().all(|v| *v == ICANARY) && jc.iter().all(|v| *v == ICANARY), "refused request wrote to a buffer");
                continue;
            }
            let mut buf = vec![CANARY; n.max(m).max(nnzj).max(nnzh) + 4];
            let used;
            match kind {
                0 => {
                    log.push(format!("f at {:?} new {}", x, newx));
                    let r = (cb.f)(n as c_int, x.as_ptr(), newx, buf.as_mut_ptr(), ud);
                    chk!(r == 1, "objective request returned {}", r);
                    let want: f64 = phi(&x);
                    chk!(close(buf[0], want, 1e3), "objective is {:?}, expected {:?}", buf[0], want);
                    used = 1;
                    fresh = false;
                }
                1 => {
                    log.push(format!("grad at {:?} new {}", x, newx));
                    let r = (cb.gf)(n as c_int, x.as_ptr(), newx, buf.as_mut_ptr(), ud);
                    chk!(r == 1, "gradient request returned {}", r);
                    for i in 0..n { chk!(close(buf[i], gphi(i, &x), 1e3), "gradient element {} is {:?}, expected {:?}", i, buf[i], gphi(i, &x)); }
                    used = n;
                    fresh = false;
                }
                2 => {
                    log.push(format!("g at {:?} new {}", x, newx));
                    let r = (cb.g)(n as c_int, x.as_ptr(), newx, m as c_int, buf.as_mut_ptr(), ud);
                    chk!(r == 1, "constraint request returned {}", r);
                    let mut w = vec![0.; m];
                    let mut mag = vec![1.; m];
                    for i in 0..na { w[i] = -d.d.b[i]; mag[i] = d.d.b[i].abs(); }
                    for (i, j, v) in &d.d.a { w[*i] += v * x[*j]; mag[*i] += (v * x[*j]).abs(); }
                    for i in 0..nf { w[na + i] = pv(3, i, &x); mag[na + i] = 1e3; }
                    for i in 0..m { chk!(close(buf[i], w[i], mag[i]), "constraint {} is {:?}, expected {:?}", i, buf[i], w[i]); }
                    used = m;
                    fresh = false;
                }
                3 | 5 => {
                    let hess = kind == 5;
                    let nz = if hess { nnzh } else { nnzj };
                    log.push(format!("structure of {}", if hess { "Hessian" } else { "Jacobian" }));
                    let mut ir = vec![ICANARY; nz + 4];
                    let mut jc = ir.clone();
                    let null = std::ptr::null_mut::<c_double>();
                    let r = if hess { (cb.h)(n as c_int, std::ptr::null(), 0, 1., m as c_int, std::ptr::null(), 0, nz as c_int, ir.as_mut_ptr(), jc.as_mut_ptr(), null, ud) }
                        else { (cb.jg)(n as c_int, std::ptr::null(), 0, m as c_int, nz as c_int, ir.as_mut_ptr(), jc.as_mut_ptr(), null, ud) };
                    chk!(r == 1, "structure request returned {}", r);
                    chk!(ir[nz..].iter().chain(jc[nz..].iter()).all(|v| *v == ICANARY), "structure request wrote past the end");
                    let pat: Vec<(c_int, c_int)> = (0..nz).map(|k| (ir[k], jc[k])).collect();
                    let want: Vec<(c_int, c_int)> = if hess { d.hphi.iter().chain(d.h.iter().flatten()).map(|t| (t.0 as c_int, t.1 as c_int)).collect() }
                        else { d.d.a.iter().map(|t| (t.0 as c_int, t.1 as c_int)).chain(d.j.iter().map(|t| ((na + t.0) as c_int, t.1 as c_int))).collect() };
                    chk!(pat == want, "{} structure is {:?}, expected {:?}", if hess { "Hessian" } else { "Jacobian" }, pat, want);
                    let slot = if hess { &mut hpat } else { &mut jpat };
                    if let Some(p) = slot { chk!(*p == pat, "structure changed"); }
                    *slot = Some(pat);
                    used = 0;
                }
                4 => {
                    log.push(format!("Jacobian values at {:?} new {}", x, newx));
                    let ni = std::ptr::null_mut::<c_int>();
                    let r = (cb.jg)(n as c_int, x.as_ptr(), newx, m as c_int, nnzj as c_int, ni, ni, buf.as_mut_ptr(), ud);
                    chk!(r == 1, "Jacobian request returned {}", r);
                    let na_nz = d.d.a.len();
                    for k in 0..nnzj {
                        let w = if k < na_nz { d.d.a[k].2 } else { pv(4, k - na_nz, &x) };
                        chk!(close(buf[k], w, 1e3), "Jacobian entry {} is {:?}, expected {:?}", k, buf[k], w);
                    }
                    used = nnzj;
                    fresh = false;
                }
                _ => {
                    log.push(format!("Hessian values at {:?} new {} factor {:?} multipliers {:?} new {}", x, newx, sigma, lam, newl));
                    let ni = std::ptr::null_mut::<c_int>();
                    let r = (cb.h)(n as c_int, x.as_ptr(), newx, sigma, m as c_int, lam.as_ptr(), newl, nnzh as c_int, ni, ni, buf.as_mut_ptr(), ud);
                    chk!(r == 1, "Hessian request returned {}", r);
                    let mut k = 0;
                    for i in 0..d.hphi.len() { let w = sigma * pv(2, i, &x); chk!(close(buf[k], w, 1e4), "Hessian entry {} is {:?}, expected {:?}", k, buf[k], w); k += 1; }
                    for (q, h) in d.h.iter().enumerate() { for i in 0..h.len() {
                        let w = lam[na + q] * pv(5 + q, i, &x);
                        chk!(close(buf[k], w, 1e4), "Hessian entry {} is {:?}, expected {:?} (constraint {})", k, buf[k], w, q);
                        k += 1;
                    } }
                    used = nnzh;
                    fresh = false;
                }
            }
            chk!(buf[used..].iter().all(|v| *v == CANARY), "request wrote past the end of its buffer");
        }
        Ok(())
    })
}

fn data(c: &mut Ctx) -> (Problem, Nl, bool) {
    if c.rng.chance(1, 4) {
        let d = lin(c);
        let p = Problem::Lp(lp(&d));
        (p, Nl { d, nf: 0, hphi: vec![], j: vec![], h: vec![] }, true)
    } else {
        let d = nl(c);
        (Problem::Nlp(pure_nlp(&d)), d, false)
    }
}

pub fn s10(c: &mut Ctx) -> R {
    reset();
    let (mut p, d, is_lp) = data(c);
    c.note(format!("lp {} {:?}", is_lp, d));
    c.nt();
    let dr = drive(Ctx::new(c.rng.u(), c.size), d.clone(), is_lp);
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.drive = Some(dr);
        s.x = vec![0.; d.d.nx]; s.mg = vec![0.; d.d.na + d.nf]; s.ml = vec![0.; d.d.nx]; s.mu = vec![0.; d.d.nx];
    });
    let r = SolverIpopt::new().solve(&mut p);
    ensure!(r.is_ok(), "solve fails");
    S.with(|s| {
        let s = s.borrow();
        ensure!((s.n, s.m, s.nj, s.nh) == (d.d.nx as c_int, (d.d.na + d.nf) as c_int, (d.d.a.len() + d.j.len()) as c_int, (d.hphi.len() + d.h.iter().map(|h| h.len()).sum::<usize>()) as c_int),
            "dimensions handed to Ipopt: n {} m {} nele_jac {} nele_hess {}", s.n, s.m, s.nj, s.nh);
        ensure!(s.style == 0, "index style {}", s.style);
        s.result.clone().unwrap_or(Err("IpoptSolve was not called".into()))
    })
}

pub fn s11(c: &mut Ctx) -> R {
    reset();
    c.nt();
    if c.rng.chance(1, 8) {
        let mut p = if c.rng.chance(1, 2) { let d = lin(c); Problem::Milp(milp(&d)) } else { let d = nl(c); Problem::Minlp(mk_minlp(&d, Rec::default())) };
        let r = SolverIpopt::new().solve(&mut p);
        ensure!(r.is_err(), "unsupported problem type accepted");
        return S.with(|s| { let s = s.borrow(); ensure!(s.created == s.freed && s.solved == 0, "created {} freed {} solved {}", s.created, s.freed, s.solved); Ok(()) });
    }
    let (mut p, mut d, is_lp) = data(c);
    if c.rng.chance(1, 4) {
        // a starting point and bounds with elements that are not finite numbers
        if let Some(x) = d.d.x0.as_mut() { for v in x.iter_mut() { if c.rng.chance(1, 3) { *v = *c.rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -0., 1e300, 1e-300]); } } }
        for v in d.d.l.iter_mut() { if c.rng.chance(1, 3) { *v = f64::NEG_INFINITY; } }
        for v in d.d.u.iter_mut() { if c.rng.chance(1, 3) { *v = f64::INFINITY; } }
        p = if is_lp { Problem::Lp(lp(&d.d)) } else { Problem::Nlp(pure_nlp(&d)) };
    }
    let dl: Lin = d.d.clone();
    let (n, na, nf) = (dl.nx, dl.na, d.nf);
    let fail = c.rng.below(10);     // 0 create, 1 int option, 2 str option, 3/4 parameter gone, else none
    let code = *c.rng.pick(&[0, 0, 1, 2, 2, 3, 4, 5, 6, -1, -2, -3, -10, -13, -100, -199, 100, 7]);
    let level = *c.rng.pick(&[0, 5, 12]);
    let sb = *c.rng.pick(&["yes", "no", "yes", "no", "", "no such thing", "y\0s", " yes", "no ", "Yes", "\tno\n"]);
    let unsendable = sb.contains('\0');
    let v = |c: &mut Ctx, n: usize| -> Vec<f64> { (0..n).map(|k| c.rng.num() + k as f64 * 0.01).collect() };
    let (x, mg, ml, mu) = (v(c, n), v(c, na + nf), v(c, n), v(c, n));
    c.note(format!("fail {} code {} level {} sb {} lp {} {:?} result x {:?} mult_g {:?} mult_l {:?} mult_u {:?}", fail, code, level, sb, is_lp, d, x, mg, ml, mu));
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.fail_create = fail == 0; s.fail_int = fail == 1; s.fail_str = fail == 2;
        s.code = code; s.x = x.clone(); s.mg = mg.clone(); s.ml = ml.clone(); s.mu = mu.clone();
    });
    let mut sol = SolverIpopt::new();
    sol.set_param("print_level", SolverParam::IntParam(level)).map_err(|_| "print_level refused")?;
    sol.set_param("sb", SolverParam::StrParam(sb.to_string())).map_err(|_| "sb refused")?;
    if fail == 3 { sol.get_params_mut().remove("print_level"); }
    if fail == 4 { sol.get_params_mut().remove("sb"); }
    let r = sol.solve(&mut p);
    S.with(|s| {
        let s = s.borrow();
        ensure!(s.created == s.freed && s.freed_other == 0 && !s.after_free, "problem created {} times, released {} times{}", s.created, s.freed, if s.after_free { ", used after release" } else { "" });
        if fail <= 4 || unsendable { ensure!(r.is_err(), "no error"); ensure!(s.solved == 0, "solved in spite of an error"); return Ok(()); }
        ensure!(s.created == 1 && s.solved == 1, "created {} solved {}", s.created, s.solved);
        ensure!(s.n as usize == n && s.m as usize == na + nf, "dimensions {} {}", s.n, s.m);
        ensure!(s.xl == dl.l && s.xu == dl.u, "bounds {:?} {:?}", s.xl, s.xu);
        ensure!(s.gl.iter().chain(s.gu.iter()).all(|v| *v == 0.) && s.gl.len() == na + nf, "constraint bounds {:?} {:?}", s.gl, s.gu);
        ensure!({ let w = dl.x0.clone().unwrap_or(vec![0.; n]); s.x_init.len() == n && s.x_init.iter().zip(&w).all(|(a, b)| same(*a, *b)) }, "started from {:?}", s.x_init);
        ensure!(s.ints.iter().any(|o| o.0 == "print_level" && o.1 == level), "options {:?}", s.ints);
        ensure!(s.strs.iter().any(|o| o.0 == "sb" && o.1 == sb), "options {:?}", s.strs);
        let (st, so) = match &r { Ok(q) => (&q.0, &q.1), Err(e) => return Err(format!("error {}", e)) };
        let want = match code { 0 | 1 => SolverStatus::Solved, 2 => SolverStatus::Infeasible, _ => SolverStatus::Error };
        ensure!(*st == want, "status {} for code {}", st, code);
        ensure!(so.x == x, "x is {:?}", so.x);
        ensure!(so.pi == ml && so.mu == mu, "pi {:?} mu {:?}", so.pi, so.mu);
        ensure!(so.lam.len() == na && so.nu.len() == nf, "multiplier sizes {} {}", so.lam.len(), so.nu.len());
        for k in 0..na { ensure!(so.lam[k] == -mg[k], "lam[{}] is {:?}", k, so.lam[k]); }
        for k in 0..nf { ensure!(so.nu[k] == -mg[na + k], "nu[{}] is {:?}", k, so.nu[k]); }
        Ok(())
    })
}
