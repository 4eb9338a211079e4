//! D23: printed expressions and constraints, read back by an independent parser.
use crate::ensure;
use crate::expr::*;
use crate::util::*;
use numopt::model::*;
use numopt::model::function::add::FunctionAdd;
use numopt::model::function::cos::FunctionCos;
use numopt::model::function::div::FunctionDiv;
use numopt::model::function::mul::FunctionMul;
use numopt::model::function::sin::FunctionSin;
use std::collections::HashMap;
use std::fmt::Write;
use std::rc::Rc;

/// the tree of a node as it stands
fn tree(n: &Node, vars: &[Node]) -> X {
    let a: Vec<X> = n.arguments().iter().map(|b| tree(b, vars)).collect();
    match n {
        Node::ConstantScalar(c) => k(c.value()),
        Node::VariableScalar(_) => Rc::new(E::V(vars.iter().position(|v| v == n).unwrap())),
        Node::FunctionAdd(_) => Rc::new(E::Add(a)),
        Node::FunctionMul(_) => Rc::new(E::Mul(a[0].clone(), a[1].clone())),
        Node::FunctionDiv(_) => Rc::new(E::Div(a[0].clone(), a[1].clone())),
        Node::FunctionSin(_) => Rc::new(E::Sin(a[0].clone())),
        Node::FunctionCos(_) => Rc::new(E::Cos(a[0].clone())),
    }
}

struct P<'a> { s: Vec<char>, i: usize, names: &'a HashMap<String, usize> }
impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && self.s[self.i].is_whitespace() { self.i += 1; } }
    fn peek(&mut self) -> Option<char> { self.ws(); self.s.get(self.i).cloned() }
    fn want(&mut self, c: char) -> Result<(), String> { if self.peek() == Some(c) { self.i += 1; Ok(()) } else { Err(format!("expected {:?} at {}", c, self.i)) } }
    fn expr(&mut self) -> Result<X, String> {
        let mut v = vec![self.term()?];
        while self.peek() == Some('+') { self.i += 1; v.push(self.term()?); }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Rc::new(E::Add(v)) })
    }
    fn term(&mut self) -> Result<X, String> {
        let mut a = self.factor()?;
        loop {
            match self.peek() {
                Some('*') => { self.i += 1; a = Rc::new(E::Mul(a, self.factor()?)); }
                Some('/') => { self.i += 1; a = Rc::new(E::Div(a, self.factor()?)); }
                _ => return Ok(a),
            }
        }
    }
    fn factor(&mut self) -> Result<X, String> {
        if self.peek() == Some('(') { self.i += 1; let e = self.expr()?; self.want(')')?; return Ok(e); }
        let st = self.i;
        if self.peek() == Some('-') { self.i += 1; }
        while self.i < self.s.len() && (self.s[self.i].is_alphanumeric() || self.s[self.i] == '_' || self.s[self.i] == '.') { self.i += 1; }
        // the sign of an exponent
        if self.s[st..self.i].first().map_or(false, |c| c.is_ascii_digit() || *c == '-') && self.i > st + 1 && self.s[self.i - 1] == 'e' && self.s.get(self.i) == Some(&'-') {
            self.i += 1;
            while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1; }
        }
        let w: String = self.s[st..self.i].iter().collect();
        if w == "sin" || w == "cos" {
            self.want('(')?;
            let e = self.expr()?;
            self.want(')')?;
            return Ok(Rc::new(if w == "sin" { E::Sin(e) } else { E::Cos(e) }));
        }
        if let Some(i) = self.names.get(&w) { return Ok(Rc::new(E::V(*i))); }
        match w.parse::<f64>() { Ok(v) => Ok(k(v)), Err(_) => Err(format!("cannot read {:?} at {}", w, st)) }
    }
}
fn parse(s: &str, names: &HashMap<String, usize>) -> R2 {
    let mut p = P { s: s.chars().collect(), i: 0, names };
    let e = p.expr()?;
    if p.peek().is_some() { return Err(format!("text left over at {}", p.i)); }
    Ok(e)
}
type R2 = Result<X, String>;

/// accepts so many bytes and then fails
struct Lim { left: usize, s: String }
impl Write for Lim {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        if t.len() > self.left { self.left = 0; return Err(std::fmt::Error); }
        self.left -= t.len();
        self.s.push_str(t);
        Ok(())
    }
}
fn limited<T: std::fmt::Display>(c: &mut Ctx, x: &T, text: &str) -> R {
    let n = c.rng.below(text.len() + 3);
    let mut w = Lim { left: n, s: String::new() };
    let r = write!(w, "{}", x);
    ensure!(r.is_ok() == (n >= text.len()), "writing {:?} to a place that takes {} bytes gives {:?}", text, n, r);
    ensure!(text.starts_with(&w.s), "wrote {:?} of {:?}", w.s, text);
    Ok(())
}
/// constants of the tree, left to right
fn consts(e: &X, out: &mut Vec<f64>) {
    match &**e {
        E::C(v) => out.push(*v),
        E::V(_) => {}
        E::Add(a) => for b in a { consts(b, out); },
        E::Mul(a, b) | E::Div(a, b) => { consts(a, out); consts(b, out); }
        E::Sin(a) | E::Cos(a) => consts(a, out),
    }
}
fn compare(c: &mut Ctx, what: &str, want: &X, got: &X, nv: usize) -> R {
    let (mut a, mut b) = (Vec::new(), Vec::new());
    consts(want, &mut a);
    consts(got, &mut b);
    ensure!(a.len() == b.len() && a.iter().zip(&b).all(|(u, v)| same(*u, *v)), "constants of {} are {:?}, expected {:?}", what, b, a);
    for _ in 0..4 {
        let x: Vec<f64> = (0..nv).map(|_| c.rng.num()).collect();
        if let (Some(u), Some(v)) = (eval(want, &x), eval(got, &x)) {
            ensure!(close(u.v, v.v, u.m), "{} read back has value {:?} at {:?}, expected {:?}", what, v.v, x, u.v);
        }
    }
    Ok(())
}

/// variables, constants and expressions over them, as they come out of the operators and
/// straight from the constructors
fn pool(c: &mut Ctx) -> Result<Option<(Pool, HashMap<String, usize>)>, String> {
    let nv = c.rng.range(1, 3);
    let mut p = Pool { vars: Vec::new(), items: Vec::new(), ops: 0 };
    let mut names = HashMap::new();
    for i in 0..nv {
        let nm = ["x", "yy", "v_3", "sinus", "e"][(i + c.rng.below(2) * 2) % 5].to_string();
        if names.contains_key(&nm) { return Ok(None); }
        let v = if c.rng.chance(1, 2) { VariableScalar::new_integer(&nm) } else { VariableScalar::new_continuous(&nm) };
        names.insert(nm, i);
        p.vars.push(v.clone());
        p.items.push((v, Rc::new(E::V(i))));
    }
    for _ in 0..c.rng.below(3) {
        let v = *c.rng.pick(&[0.1, 1. / 3., -2.5, 1e-12, 123456.789012345, -1e21, 1e300, 0., -0., 7., 2f64.powi(-60), f64::INFINITY, f64::NEG_INFINITY, f64::NAN]);
        let n = ConstantScalar::new(v);
        p.items.push((n, k(v)));
    }
    // expressions as they come out of the operators, and straight from the constructors
    for _ in 0..c.rng.range(1, c.size + 2) {
        if c.rng.chance(1, 2) {
            let (a, b) = (p.any(&mut c.rng), p.any(&mut c.rng));
            let zero = |n: &Node| n.is_constant_with_value(0.);
            let n = match c.rng.below(6) {
                0 | 1 => { let mut l = vec![a.0, b.0]; for _ in 0..c.rng.below(3) { l.push(p.any(&mut c.rng).0); } FunctionAdd::new(l) }
                2 => FunctionMul::new(a.0, b.0),
                3 => if zero(&b.0) { continue } else { FunctionDiv::new(a.0, b.0) },
                4 => FunctionSin::new(a.0),
                _ => FunctionCos::new(a.0),
            };
            let x = tree(&n, &p.vars);
            p.push(c, "constructor", n, x);
        } else { p.grow(c, false)?; }
    }
    Ok(Some((p, names)))
}
pub fn d23(c: &mut Ctx) -> R {
    let (p, names) = match pool(c)? { Some(x) => x, None => return Ok(()) };
    let nv = p.vars.len();
    for _ in 0..3 {
        let (n, _) = p.any(&mut c.rng);
        let t = format!("{}", n);
        c.note(format!("prints {}", t));
        let want = tree(&n, &p.vars);
        if !n.arguments().is_empty() { c.nt(); }
        let got = match parse(&t, &names) { Ok(e) => e, Err(m) => return Err(format!("printed expression {:?} cannot be read: {}", t, m)) };
        compare(c, &format!("{:?}", t), &want, &got, nv)?;
        limited(c, &n, &t)?;
        let own = match &n { Node::FunctionAdd(x) => x.to_string(), Node::FunctionMul(x) => x.to_string(), Node::FunctionDiv(x) => x.to_string(), _ => continue };
        match parse(&own, &names) { Ok(e) => compare(c, &format!("{:?}", own), &want, &e, nv)?, Err(m) => return Err(format!("printed expression {:?} cannot be read: {}", own, m)) }
    }
    let (a, b) = (p.any(&mut c.rng).0, p.any(&mut c.rng).0);
    let kind = c.rng.below(3);
    let q = match kind { 0 => a.equal(&b), 1 => a.leq(&b), _ => a.geq(&b) };
    let t = format!("{}", q);
    c.note(format!("constraint prints {}", t));
    let parts: Vec<&str> = t.split(["==", "<=", ">="][kind]).collect();
    ensure!(parts.len() == 2, "constraint prints {:?}", t);
    for (s, n) in parts.iter().zip([&a, &b]) {
        let got = match parse(s, &names) { Ok(e) => e, Err(m) => return Err(format!("printed constraint {:?} cannot be read: {}", t, m)) };
        compare(c, &format!("side {:?}", s), &tree(n, &p.vars), &got, nv)?;
    }
    limited(c, &q, &t)
}

/// N23: a printed model, line by line
pub fn n23(c: &mut Ctx) -> R {
    let (p, names) = match pool(c)? { Some(x) => x, None => return Ok(()) };
    let nv = p.vars.len();
    let mut m = Model::new();
    let o = p.any(&mut c.rng).0;
    let kind = c.rng.below(3);
    match kind { 0 => m.set_objective(Objective::minimize(&o)), 1 => m.set_objective(Objective::maximize(&o)), _ => if c.rng.chance(1, 2) { m.set_objective(Objective::empty()) } }
    let mut want: Vec<(Node, usize, Node, String)> = Vec::new();
    for _ in 0..c.rng.below(c.size + 2) {
        let (a, b) = (p.any(&mut c.rng).0, p.any(&mut c.rng).0);
        let l = *c.rng.pick(&["", "", "flow", "r1", "a : b", "é 1", " ", "x"]);
        let k = c.rng.below(3);
        let q = match (k, l.is_empty()) {
            (0, true) => a.equal(&b), (1, true) => a.leq(&b), (_, true) => a.geq(&b),
            (0, _) => a.equal_and_tag(&b, l), (1, _) => a.leq_and_tag(&b, l), _ => a.geq_and_tag(&b, l) };
        m.add_constraint(&q);
        want.push((a, k, b, l.to_string()));
    }
    let t = format!("{}", m);
    c.note(format!("model prints {:?}", t));
    if want.len() > 1 { c.nt(); }
    let lines: Vec<&str> = t.split('\n').collect();
    let n = 4 + if want.is_empty() { 0 } else { 2 + want.len() };
    ensure!(lines.len() == n && lines[n - 1].is_empty() && lines[0].trim().is_empty(), "printed model has {} lines, expected {}: {:?}", lines.len(), n, t);
    ensure!(lines[1].trim() == ["Minimize", "Maximize", "Find point"][kind], "goal printed as {:?}", lines[1]);
    if kind == 2 { ensure!(lines[2].trim().is_empty(), "empty objective printed as {:?}", lines[2]); }
    else {
        let got = match parse(lines[2], &names) { Ok(e) => e, Err(e) => return Err(format!("printed objective {:?} cannot be read: {}", lines[2], e)) };
        compare(c, "printed objective", &tree(&o, &p.vars), &got, nv)?;
    }
    if !want.is_empty() { ensure!(lines[3].trim().is_empty() && lines[4].trim() == "Subject to", "heading of the constraints is {:?}", lines[4]); }
    for (i, (a, k, b, l)) in want.iter().enumerate() {
        let s = lines[5 + i];
        let (s, label) = match s.split_once(" : ") { Some((s, l)) => (s, l), None => (s, "") };
        ensure!(label.trim() == l.trim(), "constraint {} printed with label {:?}, expected {:?}", i, label, l);
        let parts: Vec<&str> = s.split(["==", "<=", ">="][*k]).collect();
        ensure!(parts.len() == 2, "constraint {} printed as {:?}", i, s);
        for (s, x) in parts.iter().zip([a, b]) {
            let got = match parse(s, &names) { Ok(e) => e, Err(e) => return Err(format!("printed constraint {:?} cannot be read: {}", s, e)) };
            compare(c, &format!("side {:?} of constraint {}", s, i), &tree(x, &p.vars), &got, nv)?;
        }
    }
    limited(c, &m, &t)
}
