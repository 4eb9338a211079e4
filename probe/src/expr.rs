//! Reference expressions kept next to numopt nodes, with evaluation, error scale and
//! symbolic differentiation of their own.
use crate::util::*;
use numopt::model::*;
use numopt::model::function::add::FunctionAdd;
use numopt::model::function::cos::FunctionCos;
use numopt::model::function::div::FunctionDiv;
use numopt::model::function::mul::FunctionMul;
use numopt::model::function::sin::FunctionSin;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Debug)]
pub enum E {
    C(f64),
    V(usize),
    Add(Vec<X>),
    Mul(X, X),
    Div(X, X),
    Sin(X),
    Cos(X),
}
pub type X = Rc<E>;

pub fn k(v: f64) -> X { Rc::new(E::C(v)) }

/// value and error scale
#[derive(Clone, Copy, Debug)]
pub struct J { pub v: f64, pub m: f64 }

/// None: a division (nearly) by zero or a value out of range
pub fn eval(e: &X, x: &[f64]) -> Option<J> {
    let r = match &**e {
        E::C(v) => J { v: *v, m: v.abs() },
        E::V(i) => J { v: x[*i], m: x[*i].abs() },
        E::Add(a) => {
            let mut r = J { v: 0., m: 0. };
            for b in a { let j = eval(b, x)?; r.v += j.v; r.m += j.m; }
            r
        }
        E::Mul(a, b) => { let p = eval(a, x)?; let q = eval(b, x)?; J { v: p.v * q.v, m: p.m * q.m } }
        E::Div(a, b) => {
            let p = eval(a, x)?;
            let q = eval(b, x)?;
            if q.v.abs() < 1e-3 || q.v.abs() < 1e-4 * q.m { return None; }
            J { v: p.v / q.v, m: (p.m / q.v.abs()) * (q.m / q.v.abs()).max(1.) }
        }
        E::Sin(a) => { let p = eval(a, x)?; if p.m > 1e4 { return None; } J { v: p.v.sin(), m: 1. + p.m } }
        E::Cos(a) => { let p = eval(a, x)?; if p.m > 1e4 { return None; } J { v: p.v.cos(), m: 1. + p.m } }
    };
    if r.v.is_finite() && r.m < 1e12 { Some(r) } else { None }
}

/// The values the tree may evaluate to, with possibly missing variables (NaN). The sign of a
/// zero is not determined (neither operand order nor the start of a sum is anybody's business), so
/// dividing by zero gives both infinities. The flag says that the value does not hang on
/// rounding. None: the kind of the result hangs on rounding, or there are too many cases.
pub fn raw_all(e: &X, x: &[Option<f64>]) -> Option<Vec<(f64, bool)>> {
    fn exact(v: f64) -> bool { !v.is_finite() || (v.abs() < 1e9 && (v * 64.).fract() == 0.) }
    fn pairs(p: &[(f64, bool)], q: &[(f64, bool)], f: &dyn Fn((f64, bool), (f64, bool)) -> Option<Vec<(f64, bool)>>) -> Option<Vec<(f64, bool)>> {
        let mut r: Vec<(f64, bool)> = Vec::new();
        for a in p { for b in q { for c in f(*a, *b)? {
            if !r.iter().any(|d| (d.0 == c.0 || (d.0.is_nan() && c.0.is_nan())) && d.1 == c.1) { r.push(c); }
        } } }
        if r.len() > 16 { None } else { Some(r) }
    }
    // an inexact value whose sign (and being zero) is not in doubt
    let firm = |a: (f64, bool)| a.1 || !a.0.is_finite() || a.0.abs() > 1e-3;
    let one = |v: f64, ex: bool| if v.is_finite() && v.abs() > 1e100 { None } else { Some(vec![(v, ex && exact(v))]) };
    match &**e {
        E::C(v) => one(*v, true),
        E::V(i) => one(x[*i].unwrap_or(f64::NAN), true),
        E::Add(a) => {
            let mut r = vec![(0., true)];
            for b in a { r = pairs(&r, &raw_all(b, x)?, &|p, q| one(p.0 + q.0, (p.1 && q.1) || !(p.0 + q.0).is_finite()))?; }
            Some(r)
        }
        E::Mul(a, b) => pairs(&raw_all(a, x)?, &raw_all(b, x)?, &|p, q| {
            let v = p.0 * q.0;
            if !v.is_finite() && !v.is_nan() && !(firm(p) && firm(q)) { return None; }
            if v.is_nan() && !p.0.is_nan() && !q.0.is_nan() && !(p.1 && q.1) { return None; }
            one(v, (p.1 && q.1) || !v.is_finite())
        }),
        E::Div(a, b) => pairs(&raw_all(a, x)?, &raw_all(b, x)?, &|p, q| {
            if !firm(q) && !p.0.is_nan() { return None; }
            if q.0 == 0. && !p.0.is_nan() {
                if !firm(p) { return None; }
                return Some(if p.0 == 0. { vec![(f64::NAN, true)] } else { vec![(f64::INFINITY, true), (f64::NEG_INFINITY, true)] });
            }
            let v = p.0 / q.0;
            if v.is_infinite() && !(firm(p) && firm(q)) { return None; }
            one(v, !v.is_finite() || (p.1 && q.1 && v.fract() == 0. && v * q.0 == p.0))
        }),
        E::Sin(a) | E::Cos(a) => {
            let cos = matches!(&**e, E::Cos(_));
            let p = raw_all(a, x)?;
            pairs(&p, &[(0., true)], &|p, _| { let v = if cos { p.0.cos() } else { p.0.sin() }; one(v, v.is_nan()) })
        }
    }
}

/// does a variable without a value occur?
pub fn missing(e: &X, x: &[Option<f64>]) -> bool {
    match &**e {
        E::C(_) => false,
        E::V(i) => x[*i].is_none(),
        E::Add(a) => a.iter().any(|b| missing(b, x)),
        E::Mul(a, b) | E::Div(a, b) => missing(a, x) || missing(b, x),
        E::Sin(a) | E::Cos(a) => missing(a, x),
    }
}

pub fn diff(e: &X, i: usize) -> X {
    match &**e {
        E::C(_) => k(0.),
        E::V(j) => k(if *j == i { 1. } else { 0. }),
        E::Add(a) => {
            let d: Vec<X> = a.iter().map(|b| diff(b, i)).filter(|d| !is0(d)).collect();
            if d.is_empty() { k(0.) } else { Rc::new(E::Add(d)) }
        }
        E::Mul(a, b) => {
            let da = diff(a, i);
            let db = diff(b, i);
            let mut v = Vec::new();
            if !is0(&da) { v.push(Rc::new(E::Mul(da, b.clone()))); }
            if !is0(&db) { v.push(Rc::new(E::Mul(a.clone(), db))); }
            if v.is_empty() { k(0.) } else { Rc::new(E::Add(v)) }
        }
        E::Div(a, b) => {
            let da = diff(a, i);
            let db = diff(b, i);
            let mut v = Vec::new();
            if !is0(&da) { v.push(Rc::new(E::Div(da, b.clone()))); }
            if !is0(&db) {
                let n = Rc::new(E::Mul(k(-1.), Rc::new(E::Mul(a.clone(), db))));
                v.push(Rc::new(E::Div(Rc::new(E::Div(n, b.clone())), b.clone())));
            }
            if v.is_empty() { k(0.) } else { Rc::new(E::Add(v)) }
        }
        E::Sin(a) => { let d = diff(a, i); if is0(&d) { d } else { Rc::new(E::Mul(Rc::new(E::Cos(a.clone())), d)) } }
        E::Cos(a) => { let d = diff(a, i); if is0(&d) { d } else { Rc::new(E::Mul(k(-1.), Rc::new(E::Mul(Rc::new(E::Sin(a.clone())), d)))) } }
    }
}
fn is0(e: &X) -> bool { matches!(&**e, E::C(v) if *v == 0.) }

/// every division inside is defined at x (also where a simplification dropped it)
pub fn defined(e: &X, x: &[f64]) -> bool { eval(e, x).is_some() }

pub fn size(e: &X) -> usize {
    match &**e {
        E::C(_) | E::V(_) => 1,
        E::Add(a) => 1 + a.iter().map(size).sum::<usize>(),
        E::Mul(a, b) | E::Div(a, b) => 1 + size(a) + size(b),
        E::Sin(a) | E::Cos(a) => 1 + size(a),
    }
}

pub fn show(e: &X) -> String {
    match &**e {
        E::C(v) => format!("{:?}", v),
        E::V(i) => format!("v{}", i),
        E::Add(a) => format!("({})", a.iter().map(show).collect::<Vec<_>>().join("+")),
        E::Mul(a, b) => format!("({}*{})", show(a), show(b)),
        E::Div(a, b) => format!("({}/{})", show(a), show(b)),
        E::Sin(a) => format!("sin({})", show(a)),
        E::Cos(a) => format!("cos({})", show(a)),
    }
}

/// number of root-to-leaf paths of the built node (what differentiation has to walk)
pub fn paths(n: &Node) -> usize {
    let a = n.arguments();
    if a.is_empty() { 1 } else { a.iter().map(|b| paths(b)).sum() }
}

/// variables reached from a node through its arguments
pub fn reach(n: &Node) -> HashSet<Node> {
    let mut o = HashSet::new();
    let mut st = vec![n.clone()];
    while let Some(m) = st.pop() {
        if let Node::VariableScalar(_) = m { o.insert(m.clone()); }
        for a in m.arguments() { st.push(a.clone()); }
    }
    o
}

/// affine by structure: sums of affine, product with a variable-free affine factor,
/// quotient by a variable-free affine denominator
pub fn structurally_affine(n: &Node) -> bool {
    match n {
        Node::ConstantScalar(_) | Node::VariableScalar(_) => true,
        Node::FunctionAdd(_) => n.arguments().iter().all(|a| structurally_affine(a)),
        Node::FunctionMul(_) => {
            let a = n.arguments();
            structurally_affine(a[0]) && structurally_affine(a[1]) && (reach(a[0]).is_empty() || reach(a[1]).is_empty())
        }
        Node::FunctionDiv(_) => {
            let a = n.arguments();
            structurally_affine(a[0]) && structurally_affine(a[1]) && reach(a[1]).is_empty()
        }
        _ => false,
    }
}

pub struct Pool {
    pub vars: Vec<Node>,
    pub items: Vec<(Node, X)>,
    pub ops: usize,
}

pub fn vals<'a>(vars: &'a [Node], x: &[f64]) -> HashMap<&'a Node, f64> {
    vars.iter().zip(x.iter()).map(|(v, x)| (v, *x)).collect()
}

pub fn point(r: &mut Rng, n: usize) -> Vec<f64> {
    let mode = r.below(4);
    (0..n).map(|_| match mode {
        0 => *r.pick(&[1., 2., -1., 0.5, 3., -2.]),
        1 => r.small(),
        2 => (r.unit() - 0.5) * 6.,
        _ => 0.25 + r.unit() * 2.,
    }).collect()
}

pub fn constant(r: &mut Rng) -> f64 {
    *r.pick(&[0., 1., -1., 2., -2., 0.5, 3., -3., 1.5, 4., -0.25])
}

impl Pool {
    pub fn new(c: &mut Ctx, nv: usize, ints: bool) -> Pool {
        let mut p = Pool { vars: Vec::new(), items: Vec::new(), ops: 0 };
        // names may coincide, also with those the library gives to slack variables
        let names = ["x", "y", "x", "z", "a", "w", "_s_a0_", "_s_j0_", "_s_a1_", "_s"];
        let same = if c.rng.chance(1, 8) { Some(names[c.rng.below(10)]) } else { None };
        for i in 0..nv {
            let int = ints && c.rng.chance(1, 3);
            let nm = if c.rng.chance(1, 3) { same.unwrap_or(names[c.rng.below(10)]).to_string() } else { format!("v{}", i) };
            let v = if int { VariableScalar::new_integer(&nm) } else { VariableScalar::new_continuous(&nm) };
            c.note(format!("v{} = {} variable \"{}\"", i, if int { "integer" } else { "continuous" }, nm));
            p.vars.push(v.clone());
            p.items.push((v, Rc::new(E::V(i))));
        }
        p
    }
    pub fn var_index(&self, n: &Node) -> Option<usize> { self.vars.iter().position(|v| v == n) }

    pub fn any(&self, r: &mut Rng) -> (Node, X) {
        // recent ones more often
        let n = self.items.len();
        let i = if r.chance(1, 2) && n > 3 { n - 1 - r.below(3) } else { r.below(n) };
        (self.items[i].0.clone(), self.items[i].1.clone())
    }

    pub fn push(&mut self, c: &mut Ctx, what: &str, n: Node, x: X) -> bool {
        if size(&x) > 40 || paths(&n) > 60 { return false; }
        c.note(format!("e{} = {}   [{}]  is {}", self.items.len(), show(&x), what, n));
        self.items.push((n, x));
        true
    }

    /// a new item from the function constructors only (no simplification)
    pub fn grow_raw(&mut self, c: &mut Ctx) {
        self.ops += 1;
        let (a, xa) = self.any(&mut c.rng);
        let (b, xb) = self.any(&mut c.rng);
        match c.rng.below(8) {
            0 => { let v = constant(&mut c.rng); self.push(c, "constant", ConstantScalar::new(v), k(v)); }
            1 => {
                let mut n = vec![a, b];
                let mut x = vec![xa, xb];
                for _ in 0..c.rng.below(3) { let (d, xd) = self.any(&mut c.rng); n.push(d); x.push(xd); }
                self.push(c, "FunctionAdd::new", FunctionAdd::new(n), Rc::new(E::Add(x)));
            }
            2 | 3 => { self.push(c, "FunctionMul::new", FunctionMul::new(a, b), Rc::new(E::Mul(xa, xb))); }
            4 | 5 => { self.push(c, "FunctionDiv::new", FunctionDiv::new(a, b), Rc::new(E::Div(xa, xb))); }
            6 => { self.push(c, "FunctionSin::new", FunctionSin::new(a), Rc::new(E::Sin(xa))); }
            _ => { self.push(c, "FunctionCos::new", FunctionCos::new(a), Rc::new(E::Cos(xa))); }
        }
    }

    /// a new item from a public operator; Err if it panics without a zero constant divisor
    pub fn grow_op(&mut self, c: &mut Ctx) -> R {
        self.ops += 1;
        let (a, xa) = self.any(&mut c.rng);
        let (b, xb) = self.any(&mut c.rng);
        let s = if c.rng.chance(1, 8) { c.rng.num() } else { constant(&mut c.rng) };
        let own = c.rng.below(4);
        let op = c.rng.below(16);
        let xs = k(s);
        let neg = |x: X| -> X { Rc::new(E::Mul(k(-1.), x)) };
        let zero = |n: &Node| n.is_constant_with_value(0.);
        macro_rules! nn { ($o: tt) => { match own { 0 => &a $o &b, 1 => &a $o b.clone(), 2 => a.clone() $o &b, _ => a.clone() $o b.clone() } } }
        macro_rules! ns { ($o: tt) => { if own % 2 == 0 { &a $o s } else { a.clone() $o s } } }
        macro_rules! sn { ($o: tt) => { if own % 2 == 0 { s $o &a } else { s $o a.clone() } } }
        let (what, div0) = match op {
            0 => ("a+b", false), 1 => ("a-b", false), 2 => ("a*b", false), 3 => ("a/b", zero(&b)),
            4 => ("a+s", false), 5 => ("a-s", false), 6 => ("a*s", false), 7 => ("a/s", s == 0.),
            8 => ("s+a", false), 9 => ("s-a", false), 10 => ("s*a", false), 11 => ("s/a", zero(&a)),
            12 => ("-a", false), 13 => ("sin a", false), 14 => ("cos a", false), _ => ("constant", false),
        };
        let x = match op {
            0 => Rc::new(E::Add(vec![xa.clone(), xb.clone()])),
            1 => Rc::new(E::Add(vec![xa.clone(), neg(xb.clone())])),
            2 => Rc::new(E::Mul(xa.clone(), xb.clone())),
            3 => Rc::new(E::Div(xa.clone(), xb.clone())),
            4 | 8 => Rc::new(E::Add(vec![xa.clone(), xs])),
            5 => Rc::new(E::Add(vec![xa.clone(), k(-s)])),
            6 | 10 => Rc::new(E::Mul(xs, xa.clone())),
            7 => Rc::new(E::Div(xa.clone(), xs)),
            9 => Rc::new(E::Add(vec![xs, neg(xa.clone())])),
            11 => Rc::new(E::Div(xs, xa.clone())),
            12 => neg(xa.clone()),
            13 => Rc::new(E::Sin(xa.clone())),
            14 => Rc::new(E::Cos(xa.clone())),
            _ => xs,
        };
        let f = || -> Node {
            match op {
                0 => nn!(+), 1 => nn!(-), 2 => nn!(*), 3 => nn!(/),
                4 => ns!(+), 5 => ns!(-), 6 => ns!(*), 7 => ns!(/),
                8 => sn!(+), 9 => sn!(-), 10 => sn!(*), 11 => sn!(/),
                12 => if own % 2 == 0 { -&a } else { -a.clone() },
                13 => a.sin(), 14 => a.cos(),
                _ => ConstantScalar::new(s),
            }
        };
        let desc = format!("{} with a = {}, b = {}, s = {:?}, ownership {}", what, a, b, s, own);
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(n) => { self.push(c, &desc, n, x); Ok(()) }
            Err(_) => if div0 { Ok(()) } else { Err(format!("operator panics: {}", desc)) },
        }
    }

    pub fn grow(&mut self, c: &mut Ctx, raw: bool) -> R {
        if raw && c.rng.chance(1, 4) { self.grow_raw(c); Ok(()) } else { self.grow_op(c) }
    }
}
