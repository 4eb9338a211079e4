use crate::ensure;
use crate::expr::*;
use crate::util::*;
use numopt::model::constraint::ConstraintKind;
use numopt::model::node_std::NodeStd;
use numopt::model::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};

pub fn n12(c: &mut Ctx) -> R {
    let nv = c.rng.range(1, 3);
    let mut p = Pool::new(c, nv, false);
    let n = c.rng.range(1, c.size * 2);
    for _ in 0..n { let k0 = c.rng.chance(1, 10); if k0 { p.grow_raw(c) } else { p.grow_op(c)? } }
    if p.ops >= 3 { c.nt(); }
    let shown: Vec<String> = p.items.iter().map(|i| format!("{}", i.0)).collect();
    for _ in 0..3 {
        let x = point(&mut c.rng, nv);
        let m = vals(&p.vars, &x);
        for (i, (node, e)) in p.items.iter().enumerate() {
            if let Some(j) = eval(e, &x) {
                let got = node.evaluate(&m);
                ensure!(close(got, j.v, j.m), "e{} is {} and evaluates to {:?} at {:?}, its operands give {:?}", i, node, got, x, j.v);
            }
        }
    }
    // operands are never changed
    for (i, it) in p.items.iter().enumerate() { ensure!(format!("{}", it.0) == shown[i], "e{} changed", i); }
    Ok(())
}

pub fn n13(c: &mut Ctx) -> R {
    let nv = c.rng.range(1, 4);
    let mut p = Pool::new(c, nv, true);
    let n = c.rng.range(1, c.size * 2);
    for _ in 0..n { p.grow_raw(c); }
    if p.ops >= 2 { c.nt(); }
    for _ in 0..3 {
        let pt = point(&mut c.rng, nv);
        let part = c.rng.chance(1, 2);
        let x: Vec<Option<f64>> = pt.iter().map(|v| if part && c.rng.chance(1, 3) { None } else { Some(*v) }).collect();
        let other: Vec<Node> = p.vars.iter().map(|v| VariableScalar::new_continuous(v.name())).collect();
        let konst = ConstantScalar::new(3.);
        let mut m: HashMap<&Node, f64> = HashMap::new();
        for (i, v) in p.vars.iter().enumerate() { if let Some(t) = x[i] { m.insert(v, t); } }
        if c.rng.chance(1, 2) {
            for o in &other { m.insert(o, 17.25); }
            m.insert(&konst, 99.);
        }
        for (i, (node, e)) in p.items.iter().enumerate() {
            let got = node.evaluate(&m);
            let want = if missing(e, &x) { vec![(f64::NAN, true)] } else { match raw_all(e, &x) { Some(w) => w, None => continue } };
            let ok = want.iter().any(|w| if !w.0.is_finite() { same(got, w.0) } else {
                let mag = eval(e, &pt).map(|j| j.m).unwrap_or(w.0.abs() * 1e4);
                close(got, w.0, mag) || (eval(e, &pt).is_none() && !w.1)
            });
            ensure!(ok, "e{} = {} evaluates to {:?} with values {:?}, expected {:?}", i, node, got, x, want);
        }
    }
    Ok(())
}

fn check_derivs(c: &mut Ctx, p: &Pool, node: &Node, e: &X, depth: usize) -> R {
    // a list of variables with repetitions
    let mut list: Vec<&Node> = Vec::new();
    for _ in 0..c.rng.range(1, p.vars.len() + 1) { let i = c.rng.below(p.vars.len()); list.push(&p.vars[i]); }
    let d = node.derivatives(&list);
    let distinct: HashSet<&Node> = list.iter().cloned().collect();
    ensure!(d.len() == distinct.len(), "derivatives of {} w.r.t. {} distinct variables has {} entries", node, distinct.len(), d.len());
    for v in &distinct {
        let i = p.var_index(v).unwrap();
        let n1 = match d.get(*v) { Some(n) => n.clone(), None => return Err(format!("derivatives of {} has no entry for v{}", node, i)) };
        let n2 = node.derivative(v);
        let de = diff(e, i);
        let occurs = reach(node).contains(*v);
        if !occurs { ensure!(n1.is_constant_with_value(0.) && n2.is_constant_with_value(0.), "derivative of {} w.r.t. v{}, which does not occur, is {} / {}", node, i, n1, n2); }
        for t in 0..4 {
            let x = point(&mut c.rng, p.vars.len());
            if let (Some(j), true) = (eval(&de, &x), defined(e, &x)) {
                let m = vals(&p.vars, &x);
                let (g1, g2) = (n1.evaluate(&m), n2.evaluate(&m));
                let mag = j.m + eval(e, &x).unwrap().m;
                ensure!(close(g1, j.v, mag), "derivative (list) of {} w.r.t. v{} is {} with value {:?} at {:?}, expected {:?}", node, i, n1, g1, x, j.v);
                ensure!(close(g2, j.v, mag), "derivative of {} w.r.t. v{} is {} with value {:?} at {:?}, expected {:?} (try {})", node, i, n2, g2, x, j.v, t);
            }
        }
        if depth > 1 && paths(&n1) < 120 && size(&de) < 120 {
            check_derivs(c, p, &n1, &de, depth - 1)?;
        }
    }
    Ok(())
}

pub fn n14(c: &mut Ctx) -> R {
    let nv = c.rng.range(1, 3);
    let mut p = Pool::new(c, nv, false);
    let n = c.rng.range(1, c.size + 2);
    for _ in 0..n { p.grow(c, true)?; }
    let start = p.items.len().saturating_sub(3);
    for i in start..p.items.len() {
        let (node, e) = (p.items[i].0.clone(), p.items[i].1.clone());
        if !reach(&node).is_empty() { c.nt(); }
        if raw_zero_div(&node) { continue; }
        check_derivs(c, &p, &node, &e, if c.size <= 4 { 3 } else { 2 })?;
    }
    Ok(())
}

/// a division by an expression that is zero everywhere (nowhere defined)
pub fn raw_zero_div(n: &Node) -> bool {
    let a = n.arguments();
    if let Node::FunctionDiv(_) = n { if reach(a[1]).is_empty() {
        let m: HashMap<&Node, f64> = HashMap::new();
        let d = a[1].evaluate(&m);
        if !(d.abs() > 1e-3) { return true; }
    } }
    a.iter().any(|b| raw_zero_div(b))
}

pub fn n15(c: &mut Ctx) -> R {
    let nv = c.rng.range(1, 4);
    let mut p = Pool::new(c, nv, false);
    let n = c.rng.range(1, c.size + 3);
    for _ in 0..n { p.grow(c, true)?; }
    let exact: Vec<(Node, X)> = p.items.iter().cloned().collect();
    for (i, (node, e)) in exact.iter().enumerate() {
        let q = node.std_properties();
        let vs = reach(node);
        if !vs.is_empty() { c.nt(); }
        let keys: HashSet<Node> = q.a.keys().cloned().collect();
        ensure!(keys == vs, "e{} = {} has {} variables but {} coefficient keys", i, node, vs.len(), keys.len());
        ensure!(q.affine == structurally_affine(node) || !q.affine, "e{} = {} reported affine", i, node);
        if q.affine {
            for _ in 0..3 {
                let x = point(&mut c.rng, nv);
                if let Some(j) = eval(e, &x) {
                    let mut v = q.b;
                    let mut m = q.b.abs();
                    for (k, a) in &q.a { let t = a * x[p.var_index(k).unwrap()]; v += t; m += t.abs(); }
                    ensure!(close(v, j.v, m + j.m), "e{} = {} reported affine with value {:?} at {:?}, but is {:?}", i, node, v, x, j.v);
                }
            }
        }
    }
    Ok(())
}

pub fn n16(c: &mut Ctx) -> R {
    let nv = c.rng.range(1, 3);
    let mut p = Pool::new(c, nv, false);
    let n = c.rng.range(1, c.size + 2);
    for _ in 0..n { p.grow(c, true)?; }
    let start = p.items.len().saturating_sub(2);
    for i in start..p.items.len() {
        let (node, e) = (p.items[i].0.clone(), p.items[i].1.clone());
        if raw_zero_div(&node) { continue; }
        let q = node.std_components();
        let vs = reach(&node);
        if !vs.is_empty() { c.nt(); }
        ensure!(q.phi == node, "components of {} contain another expression {}", node, q.phi);
        let g: HashSet<Node> = q.gphi.iter().map(|t| t.0.clone()).collect();
        ensure!(g == vs && q.gphi.len() == vs.len(), "gradient of {} has {} entries for {} variables", node, q.gphi.len(), vs.len());
        let mut pairs: HashSet<(usize, usize)> = HashSet::new();
        for (a, b, _) in &q.hphi {
            let (s, t) = (p.var_index(a).unwrap(), p.var_index(b).unwrap());
            ensure!(vs.contains(a) && vs.contains(b), "Hessian of {} lists v{}, v{}", node, s, t);
            ensure!(pairs.insert((s.min(t), s.max(t))), "Hessian of {} lists pair v{}, v{} twice", node, s, t);
        }
        if q.prop.affine {
            ensure!(q.hphi.is_empty(), "affine {} has Hessian entries", node);
            for (v, d) in &q.gphi {
                ensure!(d.is_constant_with_value(q.prop.a[v]) || q.prop.a[v].is_nan(), "gradient entry {} of affine {} is not the coefficient {:?}", d, node, q.prop.a[v]);
            }
        }
        for _ in 0..3 {
            let x = point(&mut c.rng, nv);
            let m = vals(&p.vars, &x);
            if !defined(&e, &x) { continue; }
            let base = eval(&e, &x).unwrap().m;
            for (v, d) in &q.gphi {
                let k = p.var_index(v).unwrap();
                if let Some(j) = eval(&diff(&e, k), &x) {
                    let got = d.evaluate(&m);
                    ensure!(close(got, j.v, j.m + base), "gradient entry v{} of {} is {} with value {:?} at {:?}, expected {:?}", k, node, d, got, x, j.v);
                }
            }
            for s in 0..nv { for t in 0..=s {
                let want = match eval(&diff(&diff(&e, s), t), &x) { Some(j) => j, None => continue };
                let want2 = match eval(&diff(&diff(&e, t), s), &x) { Some(j) => j, None => continue };
                let got = q.hphi.iter().find(|h| { let (a, b) = (p.var_index(&h.0).unwrap(), p.var_index(&h.1).unwrap()); (a, b) == (s, t) || (a, b) == (t, s) })
                    .map(|h| h.2.evaluate(&m)).unwrap_or(0.);
                ensure!(close(got, want.v, want.m + want2.m + base), "Hessian entry v{},v{} of {} has value {:?} at {:?}, expected {:?}", s, t, node, got, x, want.v);
            } }
        }
    }
    Ok(())
}

fn hash_of<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }

fn describe(n: &Node) -> String {
    let k = match n {
        Node::ConstantScalar(x) => format!("const {:?}", x.value()),
        Node::VariableScalar(x) => format!("var {} {} {}", x.name(), x.is_continuous(), x.is_integer()),
        Node::FunctionAdd(_) => "add".into(), Node::FunctionCos(_) => "cos".into(), Node::FunctionDiv(_) => "div".into(),
        Node::FunctionMul(_) => "mul".into(), Node::FunctionSin(_) => "sin".into(),
    };
    format!("{} {} {}", k, n, n.arguments().len())
}

pub fn n17(c: &mut Ctx) -> R {
    let mut p = Pool::new(c, 2, true);
    // (handle, identity)
    let mut hs: Vec<(Node, usize)> = Vec::new();
    let mut cs: Vec<(Constraint, usize)> = Vec::new();
    let mut next = 0;
    let mut fresh = |hs: &mut Vec<(Node, usize)>, n: Node| { hs.push((n, next)); next += 1; };
    for _ in 0..c.size * 2 {
        match c.rng.below(6) {
            k @ 0..=1 => {
                let name = *c.rng.pick(&["x", "y", "", " x ", "_s_a0_", "X1"]);
                let v = if k == 0 { VariableScalar::new_continuous(name) } else { VariableScalar::new_integer(name) };
                match &v {
                    Node::VariableScalar(w) => ensure!(w.name() == name && v.name() == name && w.is_integer() == (k == 1) && w.is_continuous() == (k == 0), "variable created as {:?}, integer {}: {}", name, k == 1, describe(&v)),
                    _ => ensure!(false, "a variable is a {}", describe(&v)),
                }
                fresh(&mut hs, v);
            }
            2 => { let v = ConstantScalar::new(1.); fresh(&mut hs, v); }
            3 => {
                let k0 = p.items.len();
                p.grow_raw(c);
                if p.items.len() > k0 { let n = p.items.pop().unwrap().0; fresh(&mut hs, n); }
            }
            4 if !hs.is_empty() => { let i = c.rng.below(hs.len()); let t = (hs[i].0.clone(), hs[i].1); hs.push(t); }
            _ => {
                if !cs.is_empty() && c.rng.chance(1, 2) {
                    let i = c.rng.below(cs.len());
                    let t = (cs[i].0.clone(), cs[i].1);
                    cs.push(t);
                } else {
                    let k = c.rng.below(3);
                    let x = p.vars[0].clone();
                    let kk = match k { 0 => x.equal_and_tag(1., "t"), 1 => x.leq_and_tag(1., "t"), _ => x.geq_and_tag(1., "t") };
                    let id = cs.len() + 1000;
                    cs.push((kk, id));
                }
            }
        }
    }
    c.note(format!("handles {:?}", hs.iter().map(|h| format!("{} #{}", h.0, h.1)).collect::<Vec<_>>()));
    c.note(format!("constraints {:?}", cs.iter().map(|h| h.1).collect::<Vec<_>>()));
    if hs.len() >= 3 { c.nt(); }
    for (a, ia) in &hs { for (b, ib) in &hs {
        ensure!((a == b) == (ia == ib) && (a != b) == (ia != ib), "{} #{} and {} #{} compare {}", a, ia, b, ib, a == b);
        if ia == ib {
            ensure!(hash_of(a) == hash_of(b), "equal handles of {} hash differently", a);
            ensure!(describe(a) == describe(b), "clone of {} shows {}", describe(a), describe(b));
            let (xa, xb) = (a.arguments(), b.arguments());
            ensure!(xa.len() == xb.len() && xa.iter().zip(&xb).all(|(s, t)| s == t), "clone of {} has other arguments", a);
        }
    } }
    for (a, ia) in &cs { for (b, ib) in &cs {
        ensure!((a == b) == (ia == ib) && (a != b) == (ia != ib), "constraints #{} and #{} compare {}", ia, ib, a == b);
        if ia == ib {
            ensure!(hash_of(a) == hash_of(b), "equal constraint handles hash differently");
            ensure!(a.lhs() == b.lhs() && a.rhs() == b.rhs() && a.label() == b.label() && *a.kind() == *b.kind(), "clone of constraint differs");
        }
    } }
    let mut m: HashMap<Node, usize> = HashMap::new();
    for (a, i) in &hs { m.insert(a.clone(), *i); }
    let ids: HashSet<usize> = hs.iter().map(|h| h.1).collect();
    ensure!(m.len() == ids.len(), "map has {} keys for {} handles", m.len(), ids.len());
    for (a, i) in &hs { ensure!(m.get(a) == Some(i), "lookup of {} #{} finds {:?}", a, i, m.get(a)); }
    let mut mr: HashMap<&Node, usize> = HashMap::new();
    for (a, i) in &hs { mr.insert(a, *i); }
    for (a, i) in &hs { ensure!(mr.get(a) == Some(i), "lookup by reference of {} #{} finds {:?}", a, i, mr.get(a)); }
    let mut mc: HashMap<Constraint, usize> = HashMap::new();
    for (a, i) in &cs { mc.insert(a.clone(), *i); }
    for (a, i) in &cs { ensure!(mc.get(a) == Some(i), "lookup of constraint #{} finds {:?}", i, mc.get(a)); }
    Ok(())
}

pub fn c18(c: &mut Ctx) -> R {
    let nv = c.rng.range(1, 2);
    let mut p = Pool::new(c, nv, true);
    for _ in 0..c.rng.range(0, c.size) { p.grow(c, false)?; }
    c.nt();
    let tags = ["", "foo", "a b", "x\"y", "c\u{e9}"];
    for _ in 0..4 {
        let (a, xa) = p.any(&mut c.rng);
        let (b, xb) = p.any(&mut c.rng);
        let s = c.rng.num();
        let tag = *c.rng.pick(&tags);
        let tagged = c.rng.chance(1, 2);
        let kind = c.rng.below(3);
        let form = c.rng.below(5);
        macro_rules! cmp { ($l: expr, $r: expr) => { match (kind, tagged) {
            (0, true) => $l.equal_and_tag($r, tag), (1, true) => $l.leq_and_tag($r, tag), (_, true) => $l.geq_and_tag($r, tag),
            (0, false) => $l.equal($r), (1, false) => $l.leq($r), (_, false) => $l.geq($r),
        } } }
        let k = match form {
            0 => cmp!(a, &b),
            1 => cmp!(a, b.clone()),
            2 => cmp!(a, s),
            3 => cmp!(s, &b),
            _ => cmp!(s, b.clone()),
        };
        c.note(format!("form {} kind {} tag {:?}: a = {}, b = {}, s = {:?}", form, kind, if tagged { tag } else { "" }, a, b, s));
        let lhs_ok = if form >= 3 { k.lhs().is_constant_with_value(s) } else { *k.lhs() == a };
        let rhs_ok = if form == 2 { k.rhs().is_constant_with_value(s) } else { *k.rhs() == b };
        ensure!(lhs_ok, "left side is {}", k.lhs());
        ensure!(rhs_ok, "right side is {}", k.rhs());
        let kind_ok = match kind { 0 => *k.kind() == ConstraintKind::Equal, 1 => *k.kind() == ConstraintKind::LessEqual, _ => *k.kind() == ConstraintKind::GreaterEqual };
        ensure!(kind_ok, "wrong kind");
        ensure!(k.label() == if tagged { tag } else { "" }, "label is {:?}", k.label());
        for _ in 0..3 {
            let x = point(&mut c.rng, nv);
            let l = if form >= 3 { Some(J { v: s, m: s.abs() }) } else { eval(&xa, &x) };
            let r = if form == 2 { Some(J { v: s, m: s.abs() }) } else { eval(&xb, &x) };
            if let (Some(l), Some(r)) = (l, r) {
                let want = match kind { 0 => (l.v - r.v).abs(), 1 => (l.v - r.v).max(0.), _ => (r.v - l.v).max(0.) };
                let got = k.violation(&vals(&p.vars, &x));
                ensure!(close(got, want, l.m + r.m), "violation at {:?} is {:?}, expected {:?} (lhs {:?}, rhs {:?})", x, got, want, l.v, r.v);
                ensure!(got >= 0., "violation at {:?} is negative: {:?}", x, got);
            }
        }
    }
    Ok(())
}
