verus! {
// ================================================================ models in standard form
#[verifier::external_body] pub fn rt_take<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
/// the expression that is minimized
pub open spec fn obj_expr(o: Objective, e: Node) -> bool {
    match o { Objective::Minimize(f) => e == f, Objective::Maximize(f) => neg_n(f, e), Objective::Empty => is_const(e) && cval(e) == FV::R(0real) } }
pub struct CS { pub ca: Seq<Constraint>, pub cj: Seq<Constraint>, pub a: Seq<(usize, Node, F64)>, pub b: Seq<F64>, pub f: Seq<Node>, pub j: Seq<(usize, Node, Node)>,
    pub h: Seq<Vec<(Node, Node, Node)>>, pub u: Seq<(Node, F64, Constraint)>, pub l: Seq<(Node, F64, Constraint)>, pub prop: Seq<NodeStdProp> }
pub open spec fn cs(c: ConstraintStdComp) -> CS { CS { ca: c.ca@, cj: c.cj@, a: c.a@, b: c.b@, f: c.f@, j: c.j@, h: c.h@, u: c.u@, l: c.l@, prop: c.prop@ } }
pub open spec fn cs0() -> CS { CS { ca: seq![], cj: seq![], a: seq![], b: seq![], f: seq![], j: seq![], h: seq![], u: seq![], l: seq![], prop: seq![] } }
pub open spec fn cat(x: CS, y: CS) -> CS { CS { ca: x.ca + y.ca, cj: x.cj + y.cj, a: x.a + y.a, b: x.b + y.b, f: x.f + y.f, j: x.j + y.j, h: x.h + y.h, u: x.u + y.u, l: x.l + y.l, prop: x.prop + y.prop } }
pub open spec fn catn(p: Seq<ConstraintStdComp>, k: int) -> CS decreases k { if k <= 0 { cs0() } else { cat(catn(p, k - 1), cs(p[k - 1])) } }
/// the standard form of constraint i, at its place
pub open spec fn part_ok(c: Seq<Constraint>, p: Seq<ConstraintStdComp>, i: int) -> bool {
    cstd_ok(c[i], catn(p, i).b.len() as int, catn(p, i).f.len() as int, catn(p, i + 1).b.len() as int, catn(p, i + 1).f.len() as int, p[i]) }
pub open spec fn parts_ok(c: Seq<Constraint>, p: Seq<ConstraintStdComp>) -> bool { p.len() == c.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] part_ok(c, p, i) }
/// the standard components of a model: the minimized objective's, and all constraints' in order
pub open spec fn mstd_of(m: Model, comp: ModelStdComp, e: Node, p: Seq<ConstraintStdComp>) -> bool { obj_expr(m.objective, e) && comp_ok(e, comp.obj) && parts_ok(m.constraints@, p) && cs(comp.constr) == catn(p, p.len() as int) }
pub open spec fn mstd_ok(m: Model, comp: ModelStdComp) -> bool { exists|e: Node, p: Seq<ConstraintStdComp>| #[trigger] mstd_of(m, comp, e, p) && cs_inv(cs(comp.constr)) }
// everything mentioned is a variable of some expression; rows are numbered consecutively
pub open spec fn cov(p: Seq<NodeStdProp>, v: Node) -> bool { exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).a@.contains_key(v) }
pub open spec fn all_aff(p: Seq<NodeStdProp>) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).affine }
pub open spec fn hcov(p: Seq<NodeStdProp>, h: Seq<(Node, Node, Node)>) -> bool { forall|i: int| 0 <= i < h.len() ==> cov(p, (#[trigger] h[i]).0) && cov(p, h[i].1) }
pub open spec fn hnodup(h: Seq<(Node, Node, Node)>) -> bool { forall|x: int, y: int| 0 <= x < y < h.len() ==> !hpair(#[trigger] h[x], (#[trigger] h[y]).0, h[y].1) }
pub open spec fn cs_inv(c: CS) -> bool {
    &&& c.ca.len() == c.b.len() && c.cj.len() == c.f.len() && c.h.len() == c.f.len()
    &&& forall|i: int| 0 <= i < c.a.len() ==> cov(c.prop, (#[trigger] c.a[i]).1) && c.a[i].0 < c.b.len()
    &&& forall|i: int| 0 <= i < c.j.len() ==> cov(c.prop, (#[trigger] c.j[i]).1) && c.j[i].0 < c.f.len()
    &&& forall|i: int| 0 <= i < c.h.len() ==> hcov(c.prop, (#[trigger] c.h[i])@)
    &&& forall|i: int| 0 <= i < c.u.len() ==> cov(c.prop, (#[trigger] c.u[i]).0)
    &&& forall|i: int| 0 <= i < c.l.len() ==> cov(c.prop, (#[trigger] c.l[i]).0)
    &&& (c.f.len() == 0 <==> all_aff(c.prop))
}
pub proof fn lem_cs_empty(c: ConstraintStdComp)
    requires c.ca@.len() == 0, c.cj@.len() == 0, c.a@.len() == 0, c.b@.len() == 0, c.f@.len() == 0, c.j@.len() == 0, c.h@.len() == 0, c.u@.len() == 0, c.l@.len() == 0, c.prop@.len() == 0,
    ensures cs(c) == cs0(),
{
    let x = cs(c); let y = cs0();
    assert(x.ca =~= y.ca && x.cj =~= y.cj && x.a =~= y.a && x.b =~= y.b && x.f =~= y.f && x.j =~= y.j && x.h =~= y.h && x.u =~= y.u && x.l =~= y.l && x.prop =~= y.prop);
}
pub proof fn lem_cov_cat(p: Seq<NodeStdProp>, q: Seq<NodeStdProp>)
    ensures forall|v: Node| #[trigger] cov(p, v) ==> cov(p + q, v), forall|v: Node| #[trigger] cov(q, v) ==> cov(p + q, v), all_aff(p + q) <==> all_aff(p) && all_aff(q),
{
    assert forall|v: Node| #[trigger] cov(p, v) implies cov(p + q, v) by { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).a@.contains_key(v); assert((p + q)[i] == p[i]); }
    assert forall|v: Node| #[trigger] cov(q, v) implies cov(p + q, v) by { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).a@.contains_key(v); assert((p + q)[p.len() + i] == q[i]); }
    if all_aff(p + q) {
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).affine by { assert((p + q)[i] == p[i]); }
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).affine by { assert((p + q)[p.len() + i] == q[i]); }
    }
    if all_aff(p) && all_aff(q) { assert forall|i: int| 0 <= i < (p + q).len() implies (#[trigger] (p + q)[i]).affine by { if i < p.len() { assert(p[i].affine); } else { assert(q[i - p.len()].affine); } } }
}
pub proof fn lem_part_rows(r: ConstraintStdComp, c: Constraint, ar: int, jr: int, ar2: int, jr2: int)
    requires cstd_ok(c, ar, jr, ar2, jr2, r),
    ensures r.prop@.len() == 1, r.ca@.len() == r.b@.len(), r.cj@.len() == r.f@.len(), r.h@.len() == r.f@.len(), ar2 == ar + r.b@.len(), jr2 == jr + r.f@.len(), r.b@.len() <= 1, r.f@.len() <= 1,
        forall|i: int| 0 <= i < r.a@.len() ==> (#[trigger] r.a@[i]).0 == ar && r.b@.len() == 1 && r.prop@[0].a@.contains_key(r.a@[i].1),
        forall|i: int| 0 <= i < r.j@.len() ==> (#[trigger] r.j@[i]).0 == jr && r.f@.len() == 1 && r.prop@[0].a@.contains_key(r.j@[i].1),
        forall|k: int, i: int| 0 <= k < r.h@.len() && 0 <= i < r.h@[k]@.len() ==> r.prop@[0].a@.contains_key((#[trigger] r.h@[k]@[i]).0) && r.prop@[0].a@.contains_key(r.h@[k]@[i].1),
        forall|i: int| 0 <= i < r.u@.len() ==> r.prop@[0].a@.contains_key((#[trigger] r.u@[i]).0),
        forall|i: int| 0 <= i < r.l@.len() ==> r.prop@[0].a@.contains_key((#[trigger] r.l@[i]).0),
        r.prop@[0].affine == (r.f@.len() == 0),
{
    let e = choose|e: Node| #[trigger] exp_of(e, c) && std_of(e, c, ar, jr, ar2, jr2, r);
    let s = sl(bounded(r.u@, r.l@), c);
    let pa = r.prop@[0].a@;
    if is_bound_row(r) { } else if is_lin_row(r) {
        match s {
            None => { let p = choose|p: Map<Node, F64>| #[trigger] row_ok(r.a@, ar, p) && forall|k: Node| #[trigger] p.contains_key(k) <==> occ(e, k);
                assert forall|i: int| 0 <= i < r.a@.len() implies pa.contains_key((#[trigger] r.a@[i]).1) by { assert(p.contains_key(r.a@[i].1)); } }
            Some(x) => {
                let (q, p) = choose|q: int, p: Map<Node, F64>| 0 <= q < r.a@.len() && #[trigger] row_ok(r.a@.remove(q), ar, p) && r.a@[q].1 == x && r.a@[q].2.v@ == FV::R(-1real) && forall|k: Node| #[trigger] p.contains_key(k) <==> occ(e, k);
                let a0 = r.a@.remove(q);
                assert forall|i: int| 0 <= i < r.a@.len() implies pa.contains_key((#[trigger] r.a@[i]).1) by {
                    if i < q { assert(a0[i] == r.a@[i]); assert(p.contains_key(a0[i].1)); } else if i > q { assert(a0[i - 1] == r.a@[i]); assert(p.contains_key(a0[i - 1].1)); } }
            }
        }
    } else {
        let h = r.h@[0]@;
        match s {
            None => { let g = choose|g: Seq<(Node, Node)>| #[trigger] std_jac(e, r.j@, h, jr, g); lem_jac_cov(e, r.j@, h, jr, g); }
            Some(x) => {
                let (q, g) = choose|q: int, g: Seq<(Node, Node)>| 0 <= q < r.j@.len() && #[trigger] std_jac(e, r.j@.remove(q), h, jr, g) && r.j@[q].0 == jr && r.j@[q].1 == x && minus_one(r.j@[q].2);
                let j0 = r.j@.remove(q);
                lem_jac_cov(e, j0, h, jr, g);
                assert forall|i: int| 0 <= i < r.j@.len() implies pa.contains_key((#[trigger] r.j@[i]).1) && r.j@[i].0 == jr by {
                    if i < q { assert(j0[i] == r.j@[i]); } else if i > q { assert(j0[i - 1] == r.j@[i]); } }
            }
        }
    }
}
pub proof fn lem_jac_cov(e: Node, j: Seq<(usize, Node, Node)>, h: Seq<(Node, Node, Node)>, row: int, g: Seq<(Node, Node)>)
    requires std_jac(e, j, h, row, g),
    ensures forall|i: int| 0 <= i < j.len() ==> (#[trigger] j[i]).0 == row && occ(e, j[i].1), forall|i: int| 0 <= i < h.len() ==> occ(e, (#[trigger] h[i]).0) && occ(e, h[i].1),
{
    assert forall|i: int| 0 <= i < j.len() implies (#[trigger] j[i]).0 == row && occ(e, j[i].1) by { assert(occ(e, g[i].0)); }
    assert forall|x: int| 0 <= x < h.len() implies occ(e, (#[trigger] h[x]).0) && occ(e, h[x].1) by { assert(hentry(g, h[x])); let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).0 == h[x].0 && der_ok(g[i].1, h[x].1, h[x].2); assert(occ(e, g[i].0)); }
}
pub proof fn lem_cs_step(x: CS, r: ConstraintStdComp, c: Constraint, ar2: int, jr2: int)
    requires cs_inv(x), cstd_ok(c, x.b.len() as int, x.f.len() as int, ar2, jr2, r),
    ensures cs_inv(cat(x, cs(r))), ar2 == cat(x, cs(r)).b.len(), jr2 == cat(x, cs(r)).f.len(), ar2 <= x.b.len() + 1, jr2 <= x.f.len() + 1,
{
    let y = cs(r); let z = cat(x, y);
    lem_part_rows(r, c, x.b.len() as int, x.f.len() as int, ar2, jr2);
    lem_cov_cat(x.prop, y.prop);
    assert forall|v: Node| #[trigger] r.prop@[0].a@.contains_key(v) implies cov(z.prop, v) by { assert(cov(y.prop, v)); }
    assert(all_aff(y.prop) <==> y.f.len() == 0) by { if y.f.len() == 0 { assert forall|i: int| 0 <= i < y.prop.len() implies (#[trigger] y.prop[i]).affine by { assert(i == 0); } } else { assert(!y.prop[0].affine); } }
    assert forall|i: int| 0 <= i < z.a.len() implies cov(z.prop, (#[trigger] z.a[i]).1) && z.a[i].0 < z.b.len() by { if i < x.a.len() { assert(z.a[i] == x.a[i]); } else { assert(z.a[i] == y.a[i - x.a.len()]); assert(r.a@[i - x.a.len()].0 == x.b.len()); } }
    assert forall|i: int| 0 <= i < z.j.len() implies cov(z.prop, (#[trigger] z.j[i]).1) && z.j[i].0 < z.f.len() by { if i < x.j.len() { assert(z.j[i] == x.j[i]); } else { assert(z.j[i] == y.j[i - x.j.len()]); assert(r.j@[i - x.j.len()].0 == x.f.len()); } }
    assert forall|i: int| 0 <= i < z.h.len() implies hcov(z.prop, (#[trigger] z.h[i])@) by {
        if i < x.h.len() { assert(hcov(x.prop, x.h[i]@)); } else { let k = i - x.h.len(); assert forall|q: int| 0 <= q < z.h[i]@.len() implies cov(z.prop, (#[trigger] z.h[i]@[q]).0) && cov(z.prop, z.h[i]@[q].1) by { assert(z.h[i]@[q] == r.h@[k]@[q]); } } }
    assert forall|i: int| 0 <= i < z.u.len() implies cov(z.prop, (#[trigger] z.u[i]).0) by { if i < x.u.len() { assert(z.u[i] == x.u[i]); } else { assert(z.u[i] == r.u@[i - x.u.len()]); } }
    assert forall|i: int| 0 <= i < z.l.len() implies cov(z.prop, (#[trigger] z.l[i]).0) by { if i < x.l.len() { assert(z.l[i] == x.l[i]); } else { assert(z.l[i] == r.l@[i - x.l.len()]); } }
}
pub proof fn lem_catn_pre(p: Seq<ConstraintStdComp>, q: Seq<ConstraintStdComp>, k: int) requires k <= p.len(), k <= q.len(), forall|i: int| 0 <= i < k ==> #[trigger] p[i] == q[i] ensures catn(p, k) == catn(q, k) decreases k { if k > 0 { lem_catn_pre(p, q, k - 1); assert(p[k - 1] == q[k - 1]); } }
pub proof fn lem_parts_push(c: Seq<Constraint>, k: int, p: Seq<ConstraintStdComp>, r: ConstraintStdComp, ar2: int, jr2: int)
    requires p.len() == k, 0 <= k < c.len(), parts_ok(c.take(k), p), cs_inv(catn(p, k)), cstd_ok(c[k], catn(p, k).b.len() as int, catn(p, k).f.len() as int, ar2, jr2, r),
    ensures parts_ok(c.take(k + 1), p.push(r)), catn(p.push(r), k + 1) == cat(catn(p, k), cs(r)), cs_inv(catn(p.push(r), k + 1)), ar2 == catn(p.push(r), k + 1).b.len(), jr2 == catn(p.push(r), k + 1).f.len(), ar2 <= catn(p, k).b.len() + 1, jr2 <= catn(p, k).f.len() + 1,
{
    let p2 = p.push(r); let c2 = c.take(k + 1);
    lem_catn_pre(p, p2, k); lem_cs_step(catn(p, k), r, c[k], ar2, jr2);
    assert forall|i: int| 0 <= i < p2.len() implies #[trigger] part_ok(c2, p2, i) by {
        if i < k { assert(part_ok(c.take(k), p, i)); lem_catn_pre(p, p2, i); lem_catn_pre(p, p2, i + 1); assert(c2[i] == c.take(k)[i]); } else { assert(c2[k] == c[k]); } }
}
// ---------------------------------------------------------------- the problem in standard form
pub trait RtExtendSet<T> { spec fn rt_sset(&self) -> Set<T>; fn rt_extend(&mut self, o: Vec<T>) ensures forall|k: T| #[trigger] final(self).rt_sset().contains(k) <==> old(self).rt_sset().contains(k) || o@.contains(k); }
impl<T> RtExtendSet<T> for HashSet<T> { open spec fn rt_sset(&self) -> Set<T> { self@ } #[verifier::external_body] fn rt_extend(&mut self, o: Vec<T>) { unimplemented!() } }
pub trait RtOwned<T> { spec fn rt_oset(&self) -> Set<T>; fn rt_owned(&self) -> (r: Vec<T>) ensures r@.no_duplicates(), r@.len() == self.rt_oset().len(), forall|k: T| #[trigger] r@.contains(k) <==> self.rt_oset().contains(k); }
impl<T> RtOwned<T> for HashSet<T> { open spec fn rt_oset(&self) -> Set<T> { self@ } #[verifier::external_body] fn rt_owned(&self) -> (r: Vec<T>) { unimplemented!() } }
/// sorting permutes
#[verifier::external_body] pub fn rt_sort_by<T, F: Fn(&T, &T) -> core::cmp::Ordering>(v: &mut Vec<T>, f: F)
    requires forall|a: &T, b: &T| #[trigger] call_requires(f, (a, b)),
    ensures final(v)@.len() == old(v)@.len(), forall|k: T| #[trigger] final(v)@.contains(k) <==> old(v)@.contains(k), old(v)@.no_duplicates() ==> final(v)@.no_duplicates() { unimplemented!() }
#[verifier::external_body] pub fn rt_str_partial_cmp(a: &str, b: &str) -> (r: Option<core::cmp::Ordering>) ensures r is Some { unimplemented!() }
/// vectors that exist at the same time fit into the address space, and so does their total length
#[verifier::external_body] pub fn rt_memory(h: &Vec<CooMat>) ensures hoffs(h@, h@.len() as int) <= usize::MAX { unimplemented!() }
pub open spec fn fv_le(a: FV, b: FV) -> bool { fv_lt(a, b) || fv_eq(a, b) }
pub open spec fn is_int(v: Node) -> bool { v is VariableScalar && v->VariableScalar_0.kind == VariableKind::VarInteger }
/// variables are numbered one-to-one from 0 to n-1
pub open spec fn vix(mp: Map<Node, usize>, n: int, obj: Map<Node, F64>, prop: Seq<NodeStdProp>) -> bool {
    &&& forall|v: Node| #[trigger] mp.contains_key(v) <==> obj.contains_key(v) || cov(prop, v)
    &&& numbered(mp, n)
}
pub open spec fn numbered(mp: Map<Node, usize>, n: int) -> bool {
    &&& forall|v: Node| #[trigger] mp.contains_key(v) ==> 0 <= mp[v] < n
    &&& forall|v: Node, w: Node| #[trigger] mp.contains_key(v) && #[trigger] mp.contains_key(w) && mp[v] == mp[w] ==> v == w
    &&& forall|j: int| 0 <= j < n ==> #[trigger] at_index(mp, j)
}
pub open spec fn at_index(mp: Map<Node, usize>, j: int) -> bool { exists|v: Node| #[trigger] mp.contains_key(v) && mp[v] == j }
pub open spec fn obj_inv(o: NodeStdComp) -> bool {
    &&& forall|i: int| 0 <= i < o.gphi@.len() ==> o.prop.a@.contains_key((#[trigger] o.gphi@[i]).0)
    &&& forall|i: int, j: int| 0 <= i < j < o.gphi@.len() ==> (#[trigger] o.gphi@[i]).0 != (#[trigger] o.gphi@[j]).0
    &&& forall|i: int| 0 <= i < o.hphi@.len() ==> o.prop.a@.contains_key((#[trigger] o.hphi@[i]).0) && o.prop.a@.contains_key(o.hphi@[i].1)
}
pub proof fn lem_obj_inv(e: Node, o: NodeStdComp) requires comp_ok(e, o) ensures obj_inv(o)
{
    let (g, h) = (o.gphi@, o.hphi@);
    assert forall|x: int| 0 <= x < h.len() implies o.prop.a@.contains_key((#[trigger] h[x]).0) && o.prop.a@.contains_key(h[x].1) by { assert(hentry(g, h[x])); let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).0 == h[x].0 && der_ok(g[i].1, h[x].1, h[x].2); assert(occ(e, g[i].0)); }
}
pub open spec fn trip_at(mp: Map<Node, usize>, r: Seq<usize>, c: Seq<usize>, d: Seq<F64>, a: Seq<(usize, Node, F64)>, i: int) -> bool { r[i] == a[i].0 && c[i] == mp[a[i].1] && d[i] == a[i].2 }
pub open spec fn trips(mp: Map<Node, usize>, r: Seq<usize>, c: Seq<usize>, d: Seq<F64>, a: Seq<(usize, Node, F64)>, n: int) -> bool { r.len() == n && c.len() == n && d.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] trip_at(mp, r, c, d, a, i) }
pub open spec fn jtrip_at(mp: Map<Node, usize>, r: Seq<usize>, c: Seq<usize>, d: Seq<Node>, a: Seq<(usize, Node, Node)>, i: int) -> bool { r[i] == a[i].0 && c[i] == mp[a[i].1] && d[i] == a[i].2 }
pub open spec fn jtrips(mp: Map<Node, usize>, r: Seq<usize>, c: Seq<usize>, d: Seq<Node>, a: Seq<(usize, Node, Node)>, n: int) -> bool { r.len() == n && c.len() == n && d.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] jtrip_at(mp, r, c, d, a, i) }
/// lower triangle
pub open spec fn htrip_at(mp: Map<Node, usize>, r: Seq<usize>, c: Seq<usize>, d: Seq<Node>, h: Seq<(Node, Node, Node)>, i: int) -> bool {
    let (p, q) = (mp[h[i].0], mp[h[i].1]); r[i] == (if p >= q { p } else { q }) && c[i] == (if p >= q { q } else { p }) && d[i] == h[i].2 }
pub open spec fn htrips(mp: Map<Node, usize>, r: Seq<usize>, c: Seq<usize>, d: Seq<Node>, h: Seq<(Node, Node, Node)>, n: int) -> bool { r.len() == n && c.len() == n && d.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] htrip_at(mp, r, c, d, h, i) }
pub open spec fn hmat_at(mp: Map<Node, usize>, n: int, m: CooMat, d: Seq<Node>, h: Seq<(Node, Node, Node)>) -> bool { m.wf() && m.shape == (n as usize, n as usize) && htrips(mp, m.row_inds@, m.col_inds@, d, h, h.len() as int) }
// objective coefficients
pub open spec fn lin_c(mp: Map<Node, usize>, c: Seq<F64>, a: Map<Node, F64>) -> bool { forall|v: Node| #[trigger] mp.contains_key(v) ==> c[mp[v] as int].v@ == (if a.contains_key(v) { a[v].v@ } else { FV::R(0real) }) }
pub open spec fn seen<'a, V>(s: Seq<(&'a Node, &'a V)>, i: int, v: Node) -> bool { exists|q: int| 0 <= q < i && *(#[trigger] s[q]).0 == v }
pub open spec fn part_c(mp: Map<Node, usize>, c: Seq<F64>, a: Map<Node, F64>, s: Seq<(&Node, &F64)>, i: int) -> bool { forall|v: Node| #[trigger] mp.contains_key(v) ==> c[mp[v] as int].v@ == (if seen(s, i, v) { a[v].v@ } else { FV::R(0real) }) }
pub open spec fn map_of<T>(m: Map<usize, T>, s: Seq<T>, n: int) -> bool { (forall|k: usize| #[trigger] m.contains_key(k) <==> k < n) && forall|k: usize| #[trigger] m.contains_key(k) ==> m[k] == s[k as int] }
// bounds: tightest, within the box
pub open spec fn box_inf() -> real { 100000000real }
pub open spec fn is_ub(us: Seq<(Node, F64, Constraint)>, v: Node, x: FV, c: Constraint, i: int) -> bool { us[i].0 == v && us[i].1.v@ == x && us[i].2 == c }
pub open spec fn ub_at(mp: Map<Node, usize>, u: Seq<F64>, ui: Map<usize, Constraint>, us: Seq<(Node, F64, Constraint)>, n: int, v: Node) -> bool {
    let x = u[mp[v] as int].v@;
    &&& fv_le(x, FV::R(box_inf()))
    &&& forall|i: int| 0 <= i < n && (#[trigger] us[i]).0 == v && !(us[i].1.v@ is NaN) ==> fv_le(x, us[i].1.v@)
    &&& if ui.contains_key(mp[v]) { exists|i: int| 0 <= i < n && #[trigger] is_ub(us, v, x, ui[mp[v]], i) }
        else { x == FV::R(box_inf()) && forall|i: int| 0 <= i < n && (#[trigger] us[i]).0 == v ==> !fv_le(us[i].1.v@, FV::R(box_inf())) }
}
pub open spec fn lb_at(mp: Map<Node, usize>, l: Seq<F64>, li: Map<usize, Constraint>, ls: Seq<(Node, F64, Constraint)>, n: int, v: Node) -> bool {
    let x = l[mp[v] as int].v@;
    &&& fv_le(FV::R(-box_inf()), x)
    &&& forall|i: int| 0 <= i < n && (#[trigger] ls[i]).0 == v && !(ls[i].1.v@ is NaN) ==> fv_le(ls[i].1.v@, x)
    &&& if li.contains_key(mp[v]) { exists|i: int| 0 <= i < n && #[trigger] is_ub(ls, v, x, li[mp[v]], i) }
        else { x == FV::R(-box_inf()) && forall|i: int| 0 <= i < n && (#[trigger] ls[i]).0 == v ==> !fv_le(FV::R(-box_inf()), ls[i].1.v@) }
}
pub open spec fn ubs(mp: Map<Node, usize>, u: Seq<F64>, ui: Map<usize, Constraint>, us: Seq<(Node, F64, Constraint)>, n: int) -> bool { (forall|k: usize| #[trigger] ui.contains_key(k) ==> k < u.len()) && forall|v: Node| #[trigger] mp.contains_key(v) ==> ub_at(mp, u, ui, us, n, v) }
pub open spec fn lbs(mp: Map<Node, usize>, l: Seq<F64>, li: Map<usize, Constraint>, ls: Seq<(Node, F64, Constraint)>, n: int) -> bool { (forall|k: usize| #[trigger] li.contains_key(k) ==> k < l.len()) && forall|v: Node| #[trigger] mp.contains_key(v) ==> lb_at(mp, l, li, ls, n, v) }
pub proof fn lem_ub_step(mp: Map<Node, usize>, n: int, u: Seq<F64>, ui: Map<usize, Constraint>, us: Seq<(Node, F64, Constraint)>, k: int, u2: Seq<F64>, ui2: Map<usize, Constraint>)
    requires numbered(mp, n), u.len() == n, ubs(mp, u, ui, us, k), 0 <= k < us.len(), mp.contains_key(us[k].0),
        fv_le(us[k].1.v@, u[mp[us[k].0] as int].v@) ==> u2 == u.update(mp[us[k].0] as int, us[k].1) && ui2 == ui.insert(mp[us[k].0], us[k].2),
        !fv_le(us[k].1.v@, u[mp[us[k].0] as int].v@) ==> u2 == u && ui2 == ui,
    ensures ubs(mp, u2, ui2, us, k + 1),
{
    assert forall|v: Node| #[trigger] mp.contains_key(v) implies ub_at(mp, u2, ui2, us, k + 1, v) by {
        let x = u[mp[v] as int].v@; let x2 = u2[mp[v] as int].v@; let w = us[k].0;
        assert(ub_at(mp, u, ui, us, k, v)); assert(ub_at(mp, u, ui, us, k, w));
        if v == w && fv_le(us[k].1.v@, u[mp[w] as int].v@) { assert(is_ub(us, v, x2, ui2[mp[v]], k)); }
        else { if v != w { assert(mp[v] != mp[w]); } if ui.contains_key(mp[v]) { let i = choose|i: int| 0 <= i < k && #[trigger] is_ub(us, v, x, ui[mp[v]], i); assert(is_ub(us, v, x2, ui2[mp[v]], i)); } }
    }
}
pub proof fn lem_lb_step(mp: Map<Node, usize>, n: int, l: Seq<F64>, li: Map<usize, Constraint>, ls: Seq<(Node, F64, Constraint)>, k: int, l2: Seq<F64>, li2: Map<usize, Constraint>)
    requires numbered(mp, n), l.len() == n, lbs(mp, l, li, ls, k), 0 <= k < ls.len(), mp.contains_key(ls[k].0),
        fv_le(l[mp[ls[k].0] as int].v@, ls[k].1.v@) ==> l2 == l.update(mp[ls[k].0] as int, ls[k].1) && li2 == li.insert(mp[ls[k].0], ls[k].2),
        !fv_le(l[mp[ls[k].0] as int].v@, ls[k].1.v@) ==> l2 == l && li2 == li,
    ensures lbs(mp, l2, li2, ls, k + 1),
{
    assert forall|v: Node| #[trigger] mp.contains_key(v) implies lb_at(mp, l2, li2, ls, k + 1, v) by {
        let x = l[mp[v] as int].v@; let x2 = l2[mp[v] as int].v@; let w = ls[k].0;
        assert(lb_at(mp, l, li, ls, k, v)); assert(lb_at(mp, l, li, ls, k, w));
        if v == w && fv_le(l[mp[w] as int].v@, ls[k].1.v@) { assert(is_ub(ls, v, x2, li2[mp[v]], k)); }
        else { if v != w { assert(mp[v] != mp[w]); } if li.contains_key(mp[v]) { let i = choose|i: int| 0 <= i < k && #[trigger] is_ub(ls, v, x, li[mp[v]], i); assert(is_ub(ls, v, x2, li2[mp[v]], i)); } }
    }
}
pub open spec fn has_int(mp: Map<Node, usize>) -> bool { exists|v: Node| #[trigger] mp.contains_key(v) && is_int(v) }
pub open spec fn seen_int(s: Seq<(&Node, &usize)>, i: int) -> bool { exists|q: int| 0 <= q < i && is_int(*(#[trigger] s[q]).0) }
pub open spec fn ints(mp: Map<Node, usize>, p: Seq<bool>) -> bool { forall|v: Node| #[trigger] mp.contains_key(v) ==> p[mp[v] as int] == is_int(v) }
pub open spec fn part_ints(mp: Map<Node, usize>, p: Seq<bool>, s: Seq<(&Node, &usize)>, i: int) -> bool { forall|v: Node| #[trigger] mp.contains_key(v) ==> p[mp[v] as int] == (seen(s, i, v) && is_int(v)) }
pub open spec fn init_x(mp: Map<Node, usize>, x: Seq<F64>, a: Map<Node, F64>) -> bool { lin_c(mp, x, a) }
pub open spec fn seen2(s: Seq<(& &Node, &F64)>, i: int, v: Node) -> bool { exists|q: int| 0 <= q < i && **(#[trigger] s[q]).0 == v }
pub open spec fn part_x(mp: Map<Node, usize>, c: Seq<F64>, a: Map<Node, F64>, s: Seq<(& &Node, &F64)>, i: int) -> bool { forall|v: Node| #[trigger] mp.contains_key(v) ==> c[mp[v] as int].v@ == (if seen2(s, i, v) { a[v].v@ } else { FV::R(0real) }) }
// what the four kinds of problem have in common
pub open spec fn pbase(p: Problem) -> ProblemMinlp { match p { Problem::Lp(x) => x.base_milp.base, Problem::Milp(x) => x.base, Problem::Nlp(x) => x.base, Problem::Minlp(x) => x } }
pub open spec fn pbase_ok(p: Problem) -> bool { match p { Problem::Lp(x) => x.wf(), Problem::Milp(x) => x.wf(), Problem::Nlp(x) => x.wf(), Problem::Minlp(x) => x.wf() } }
pub open spec fn kind_ok(p: Problem, affine: bool, intg: bool) -> bool { match p { Problem::Lp(x) => affine && !intg, Problem::Milp(x) => affine && intg, Problem::Nlp(x) => !affine && !intg, Problem::Minlp(x) => !affine && intg } }
pub open spec fn pcost(p: Problem) -> Option<Seq<F64>> { match p { Problem::Lp(x) => Some(x.base_milp.c@), Problem::Milp(x) => Some(x.c@), _ => None } }
pub open spec fn sprob_ok(m: Model, comp: ModelStdComp, r: ModelStdProb) -> bool {
    let c = cs(comp.constr); let mp = r.var2index@; let b = pbase(r.prob); let n = b.a.shape.1 as int;
    &&& pbase_ok(r.prob) && kind_ok(r.prob, comp.obj.prop.affine && all_aff(comp.constr.prop@), has_int(mp))
    &&& vix(mp, n, comp.obj.prop.a@, comp.constr.prop@)
    &&& b.a.shape.0 == c.b.len() && trips(mp, b.a.row_inds@, b.a.col_inds@, b.a.data@, c.a, c.a.len() as int) && b.b@ == c.b
    &&& b.j.shape.0 == (if r.prob is Nlp || r.prob is Minlp { c.f.len() } else { 0 })
    &&& match pcost(r.prob) { Some(x) => x.len() == n && lin_c(mp, x, comp.obj.prop.a@), None => true }
    &&& ubs(mp, b.u@, r.uindex2constr@, c.u, c.u.len() as int) && lbs(mp, b.l@, r.lindex2constr@, c.l, c.l.len() as int)
    &&& ints(mp, b.p@)
    &&& match opt_view(b.x0) { Some(x) => x.len() == n && init_x(mp, x, m.init_primals@), None => false }
    &&& map_of(r.aindex2constr@, c.ca, c.ca.len() as int) && map_of(r.jindex2constr@, c.cj, c.cj.len() as int)
}
pub open spec fn std_prob_ok(m: Model, r: ModelStdProb) -> bool { exists|comp: ModelStdComp| #[trigger] mstd_ok(m, comp) && sprob_ok(m, comp, r) }
} // verus!
verus! {
pub broadcast axiom fn km_refcons() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<&Constraint>();
pub broadcast axiom fn km_usize() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<usize>();
// ---------------------------------------------------------------- evaluating
pub open spec fn env(mp: Map<Node, usize>, x: Seq<F64>) -> IMap<Node, FV> { IMap::new(|k: Node| mp.contains_key(k), |k: Node| x[mp[k] as int].v@) }
pub open spec fn evs(e: Seq<Node>, env: IMap<Node, FV>, d: Seq<F64>, n: int) -> bool { forall|k: int| 0 <= k < n ==> (#[trigger] d[k]).v@ == ev(e[k], env) }
pub open spec fn in_range(mp: Map<Node, usize>, n: int) -> bool { forall|v: Node| #[trigger] mp.contains_key(v) ==> mp[v] < n }
pub open spec fn same_pat(a: CooMat, b: CooMat) -> bool { a.shape == b.shape && a.row_inds@ == b.row_inds@ && a.col_inds@ == b.col_inds@ && a.data@.len() == b.data@.len() }
pub open spec fn same_pats(a: Seq<CooMat>, b: Seq<CooMat>) -> bool { a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> same_pat(#[trigger] a[k], b[k]) }
pub open spec fn hlens(h: Seq<CooMat>, d: Seq<Vec<Node>>) -> bool { h.len() == d.len() && forall|k: int| 0 <= k < h.len() ==> (#[trigger] h[k]).data@.len() == d[k]@.len() }
pub open spec fn distinct(g: Seq<usize>, n: int) -> bool { (forall|i: int| 0 <= i < g.len() ==> #[trigger] g[i] < n) && forall|i: int, j: int| 0 <= i < j < g.len() ==> #[trigger] g[i] != #[trigger] g[j] }
pub open spec fn cap_pre(mp: Map<Node, usize>, gi: Seq<usize>, gd: Seq<Node>, hd: Seq<Node>, f: Seq<Node>, j: Seq<Node>, h: Seq<Vec<Node>>, s: EvState, x: Seq<F64>) -> bool {
    in_range(mp, x.len() as int) && gi.len() == gd.len() && distinct(gi, s.gphi.len() as int) && s.hphi.data@.len() == hd.len() && s.f.len() == f.len() && s.j.data@.len() == j.len() && hlens(s.h, h) }
pub open spec fn in_upto(g: Seq<usize>, n: int, q: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] g[i] == q }
/// entry g[i] of d is the value of e[i], and no other entry changed
pub open spec fn scat(g: Seq<usize>, e: Seq<Node>, env: IMap<Node, FV>, d0: Seq<F64>, d: Seq<F64>, n: int) -> bool {
    d.len() == d0.len() && (forall|i: int| 0 <= i < n ==> d[#[trigger] g[i] as int].v@ == ev(e[i], env)) && forall|q: int| 0 <= q < d.len() && !in_upto(g, n, q) ==> #[trigger] d[q] == d0[q] }
pub open spec fn hvals(h: Seq<CooMat>, d: Seq<Vec<Node>>, env: IMap<Node, FV>, n: int) -> bool { forall|k: int| 0 <= k < n ==> evs(d[k]@, env, (#[trigger] h[k]).data@, d[k]@.len() as int) }
pub open spec fn cap_post(mp: Map<Node, usize>, phi: Node, gi: Seq<usize>, gd: Seq<Node>, hd: Seq<Node>, f: Seq<Node>, j: Seq<Node>, h: Seq<Vec<Node>>, s: EvState, x: Seq<F64>, s2: EvState) -> bool {
    let e = env(mp, x);
    &&& s2.phi.v@ == ev(phi, e)
    &&& scat(gi, gd, e, s.gphi, s2.gphi, gi.len() as int)
    &&& same_pat(s.hphi, s2.hphi) && evs(hd, e, s2.hphi.data@, hd.len() as int)
    &&& s2.f.len() == s.f.len() && evs(f, e, s2.f, f.len() as int)
    &&& same_pat(s.j, s2.j) && evs(j, e, s2.j.data@, j.len() as int)
    &&& same_pats(s.h, s2.h) && hvals(s2.h, h, e, h.len() as int)
}
// what the evaluation buffers of the model's problem look like, always
pub open spec fn gin(o: NodeStdComp, v: Node) -> bool { exists|i: int| 0 <= i < o.gphi@.len() && (#[trigger] o.gphi@[i]).0 == v }
pub open spec fn shaped(comp: ModelStdComp, mp: Map<Node, usize>, n: int, s: EvState) -> bool {
    let c = cs(comp.constr);
    &&& s.gphi.len() == n && forall|v: Node| #[trigger] mp.contains_key(v) && !gin(comp.obj, v) ==> s.gphi[mp[v] as int].v@ == FV::R(0real)
    &&& s.hphi.wf() && hpat_of(mp, n, s.hphi, comp.obj.hphi@)
    &&& s.f.len() == c.f.len()
    &&& s.j.wf() && s.j.shape == (c.f.len() as usize, n as usize) && jpat_of(mp, s.j, c.j)
    &&& s.h.len() == c.f.len() && forall|k: int| 0 <= k < s.h.len() ==> (#[trigger] s.h[k]).wf() && hpat_of(mp, n, s.h[k], c.h[k]@)
}
pub open spec fn hpos(mp: Map<Node, usize>, m: CooMat, h: Seq<(Node, Node, Node)>, i: int) -> bool {
    let (p, q) = (mp[h[i].0], mp[h[i].1]); m.row_inds@[i] == (if p >= q { p } else { q }) && m.col_inds@[i] == (if p >= q { q } else { p }) }
/// one entry per second derivative, in the lower triangle
pub open spec fn hpat_of(mp: Map<Node, usize>, n: int, m: CooMat, h: Seq<(Node, Node, Node)>) -> bool { m.shape == (n as usize, n as usize) && m.data@.len() == h.len() && forall|i: int| 0 <= i < h.len() ==> #[trigger] hpos(mp, m, h, i) }
pub open spec fn jpos(mp: Map<Node, usize>, m: CooMat, j: Seq<(usize, Node, Node)>, i: int) -> bool { m.row_inds@[i] == j[i].0 && m.col_inds@[i] == mp[j[i].1] }
pub open spec fn jpat_of(mp: Map<Node, usize>, m: CooMat, j: Seq<(usize, Node, Node)>) -> bool { m.data@.len() == j.len() && forall|i: int| 0 <= i < j.len() ==> #[trigger] jpos(mp, m, j, i) }
pub open spec fn hev(h: Seq<(Node, Node, Node)>, e: IMap<Node, FV>, d: Seq<F64>) -> bool { forall|k: int| 0 <= k < h.len() ==> (#[trigger] d[k]).v@ == ev(h[k].2, e) }
/// the buffers hold the values of the model's functions and derivatives at x
pub open spec fn evals(comp: ModelStdComp, mp: Map<Node, usize>, x: Seq<F64>, s: EvState) -> bool {
    let c = cs(comp.constr); let e = env(mp, x);
    &&& s.phi.v@ == ev(comp.obj.phi, e)
    &&& forall|i: int| 0 <= i < comp.obj.gphi@.len() ==> s.gphi[mp[(#[trigger] comp.obj.gphi@[i]).0] as int].v@ == ev(comp.obj.gphi@[i].1, e)
    &&& hev(comp.obj.hphi@, e, s.hphi.data@)
    &&& evs(c.f, e, s.f, c.f.len() as int)
    &&& forall|k: int| 0 <= k < c.j.len() ==> (#[trigger] s.j.data@[k]).v@ == ev(c.j[k].2, e)
    &&& forall|k: int| 0 <= k < c.h.len() ==> hev(#[trigger] c.h[k]@, e, s.h[k].data@)
}
pub open spec fn same_patterns(s: EvState, s2: EvState) -> bool { same_pat(s.hphi, s2.hphi) && same_pat(s.j, s2.j) && same_pats(s.h, s2.h) }
pub open spec fn ev_ready(comp: ModelStdComp, mp: Map<Node, usize>, n: int, s: EvState, x: Seq<F64>) -> bool { shaped(comp, mp, n, s) && x.len() == n }
pub open spec fn ev_good(comp: ModelStdComp, mp: Map<Node, usize>, n: int, s: EvState, x: Seq<F64>, s2: EvState) -> bool { shaped(comp, mp, n, s2) && same_patterns(s, s2) && evals(comp, mp, x, s2) }
pub open spec fn ev_fn_ok(f: EvalFn, comp: ModelStdComp, mp: Map<Node, usize>, n: int) -> bool {
    &&& forall|s: EvState, x: Seq<F64>| ev_ready(comp, mp, n, s, x) ==> #[trigger] ev_pre(f, s, x)
    &&& forall|s: EvState, x: Seq<F64>, s2: EvState| ev_ready(comp, mp, n, s, x) && #[trigger] ev_rel(f, s, x, s2) ==> ev_good(comp, mp, n, s, x, s2)
}
pub open spec fn comp_eval_ok(comp: ModelStdComp, r: ModelStdProb) -> bool {
    let b = pbase(r.prob); let n = b.a.shape.1 as int;
    numbered(r.var2index@, n) && (r.prob is Nlp || r.prob is Minlp ==> shaped(comp, r.var2index@, n, b.state()) && ev_fn_ok(b.eval_fn, comp, r.var2index@, n)) }
pub open spec fn seval_ok(m: Model, r: ModelStdProb) -> bool { exists|comp: ModelStdComp| #[trigger] mstd_ok(m, comp) && comp_eval_ok(comp, r) }
pub proof fn lem_scat(g: Seq<usize>, e: Seq<Node>, env: IMap<Node, FV>, d0: Seq<F64>, d: Seq<F64>, n: int, d2: Seq<F64>)
    requires distinct(g, d0.len() as int), 0 <= n < g.len(), scat(g, e, env, d0, d, n), d2.len() == d.len(), d2[g[n] as int].v@ == ev(e[n], env), forall|q: int| 0 <= q < d.len() && q != g[n] ==> #[trigger] d2[q] == d[q],
    ensures scat(g, e, env, d0, d2, n + 1),
{
    assert forall|q: int| 0 <= q < d2.len() && !in_upto(g, n + 1, q) implies #[trigger] d2[q] == d0[q] by {
        if q == g[n] { assert(in_upto(g, n + 1, q)); }
        if in_upto(g, n, q) { let i = choose|i: int| 0 <= i < n && #[trigger] g[i] == q; assert(in_upto(g, n + 1, q)); }
        assert(d[q] == d0[q]);
    }
}
pub proof fn lem_eval_fn(f: EvalFn, comp: ModelStdComp, mp: Map<Node, usize>, n: int, gi: Seq<usize>, gd: Seq<Node>, hd: Seq<Node>, fd: Seq<Node>, jd: Seq<Node>, h: Seq<Vec<Node>>)
    requires numbered(mp, n), cs_inv(cs(comp.constr)), obj_inv(comp.obj), mp_covers(mp, comp),
        caps(comp, mp, gi, gd, hd, fd, jd, h),
        forall|s: EvState, x: Seq<F64>| cap_pre(mp, gi, gd, hd, fd, jd, h, s, x) ==> #[trigger] ev_pre(f, s, x),
        forall|s: EvState, x: Seq<F64>, s2: EvState| cap_pre(mp, gi, gd, hd, fd, jd, h, s, x) && #[trigger] ev_rel(f, s, x, s2) ==> cap_post(mp, comp.obj.phi, gi, gd, hd, fd, jd, h, s, x, s2),
    ensures ev_fn_ok(f, comp, mp, n),
{
    assert forall|s: EvState, x: Seq<F64>| ev_ready(comp, mp, n, s, x) implies #[trigger] ev_pre(f, s, x) by { lem_cap_pre(comp, mp, n, gi, gd, hd, fd, jd, h, s, x); }
    assert forall|s: EvState, x: Seq<F64>, s2: EvState| ev_ready(comp, mp, n, s, x) && #[trigger] ev_rel(f, s, x, s2) implies ev_good(comp, mp, n, s, x, s2) by {
        lem_cap_pre(comp, mp, n, gi, gd, hd, fd, jd, h, s, x); lem_cap_post(comp, mp, n, gi, gd, hd, fd, jd, h, s, x, s2); }
}
pub open spec fn mp_covers(mp: Map<Node, usize>, comp: ModelStdComp) -> bool { forall|v: Node| #[trigger] mp.contains_key(v) <==> comp.obj.prop.a@.contains_key(v) || cov(comp.constr.prop@, v) }
pub open spec fn caps(comp: ModelStdComp, mp: Map<Node, usize>, gi: Seq<usize>, gd: Seq<Node>, hd: Seq<Node>, fd: Seq<Node>, jd: Seq<Node>, h: Seq<Vec<Node>>) -> bool {
    let c = cs(comp.constr);
    &&& gcaps(mp, gi, gd, comp.obj.gphi@, comp.obj.gphi@.len() as int)
    &&& thirds(hd, comp.obj.hphi@)
    &&& fd == c.f && jd.len() == c.j.len() && forall|k: int| 0 <= k < c.j.len() ==> #[trigger] jd[k] == c.j[k].2
    &&& h.len() == c.h.len() && forall|k: int| 0 <= k < c.h.len() ==> thirds(#[trigger] h[k]@, c.h[k]@)
}
pub open spec fn gcaps(mp: Map<Node, usize>, gi: Seq<usize>, gd: Seq<Node>, g: Seq<(Node, Node)>, n: int) -> bool { gi.len() == n && gd.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] gi[i] == mp[g[i].0] && gd[i] == g[i].1 }
pub open spec fn thirds(d: Seq<Node>, h: Seq<(Node, Node, Node)>) -> bool { d.len() == h.len() && forall|k: int| 0 <= k < h.len() ==> #[trigger] d[k] == h[k].2 }
pub proof fn lem_cap_pre(comp: ModelStdComp, mp: Map<Node, usize>, n: int, gi: Seq<usize>, gd: Seq<Node>, hd: Seq<Node>, fd: Seq<Node>, jd: Seq<Node>, h: Seq<Vec<Node>>, s: EvState, x: Seq<F64>)
    requires numbered(mp, n), cs_inv(cs(comp.constr)), obj_inv(comp.obj), mp_covers(mp, comp), caps(comp, mp, gi, gd, hd, fd, jd, h), ev_ready(comp, mp, n, s, x),
    ensures cap_pre(mp, gi, gd, hd, fd, jd, h, s, x),
{
    let g = comp.obj.gphi@;
    assert forall|i: int| 0 <= i < gi.len() implies #[trigger] gi[i] < s.gphi.len() by { assert(mp.contains_key(g[i].0)); }
    assert forall|i: int, j: int| 0 <= i < j < gi.len() implies #[trigger] gi[i] != #[trigger] gi[j] by { assert(mp.contains_key(g[i].0)); assert(mp.contains_key(g[j].0)); assert(g[i].0 != g[j].0); }
    assert forall|k: int| 0 <= k < s.h.len() implies (#[trigger] s.h[k]).data@.len() == h[k]@.len() by { assert(thirds(h[k]@, cs(comp.constr).h[k]@)); }
}
pub proof fn lem_cap_post(comp: ModelStdComp, mp: Map<Node, usize>, n: int, gi: Seq<usize>, gd: Seq<Node>, hd: Seq<Node>, fd: Seq<Node>, jd: Seq<Node>, h: Seq<Vec<Node>>, s: EvState, x: Seq<F64>, s2: EvState)
    requires numbered(mp, n), cs_inv(cs(comp.constr)), obj_inv(comp.obj), mp_covers(mp, comp), caps(comp, mp, gi, gd, hd, fd, jd, h), ev_ready(comp, mp, n, s, x), cap_pre(mp, gi, gd, hd, fd, jd, h, s, x), cap_post(mp, comp.obj.phi, gi, gd, hd, fd, jd, h, s, x, s2),
    ensures ev_good(comp, mp, n, s, x, s2),
{
    let c = cs(comp.constr); let e = env(mp, x); let g = comp.obj.gphi@;
    assert forall|v: Node| #[trigger] mp.contains_key(v) && !gin(comp.obj, v) implies s2.gphi[mp[v] as int].v@ == FV::R(0real) by {
        let q = mp[v] as int;
        if in_upto(gi, gi.len() as int, q) { let i = choose|i: int| 0 <= i < gi.len() && #[trigger] gi[i] == q; assert(mp.contains_key(g[i].0)); assert(g[i].0 == v); }
        assert(s2.gphi[q] == s.gphi[q]);
    }
    assert forall|i: int| 0 <= i < g.len() implies s2.gphi[mp[(#[trigger] g[i]).0] as int].v@ == ev(g[i].1, e) by { assert(gi[i] == mp[g[i].0]); }
    assert forall|i: int| 0 <= i < comp.obj.hphi@.len() implies #[trigger] hpos(mp, s2.hphi, comp.obj.hphi@, i) by { assert(hpos(mp, s.hphi, comp.obj.hphi@, i)); }
    assert forall|i: int| 0 <= i < c.j.len() implies #[trigger] jpos(mp, s2.j, c.j, i) by { assert(jpos(mp, s.j, c.j, i)); }
    assert forall|k: int| 0 <= k < s2.h.len() implies (#[trigger] s2.h[k]).wf() && hpat_of(mp, n, s2.h[k], c.h[k]@) by {
        assert(same_pat(s.h[k], s2.h[k])); assert(hpat_of(mp, n, s.h[k], c.h[k]@));
        assert forall|i: int| 0 <= i < c.h[k]@.len() implies #[trigger] hpos(mp, s2.h[k], c.h[k]@, i) by { assert(hpos(mp, s.h[k], c.h[k]@, i)); } }
    assert forall|k: int| 0 <= k < c.j.len() implies (#[trigger] s2.j.data@[k]).v@ == ev(c.j[k].2, e) by { assert(jd[k] == c.j[k].2); }
    assert forall|k: int| 0 <= k < c.h.len() implies hev(#[trigger] c.h[k]@, e, s2.h[k].data@) by { assert(thirds(h[k]@, c.h[k]@)); assert(evs(h[k]@, e, s2.h[k].data@, h[k]@.len() as int)); assert forall|i: int| 0 <= i < c.h[k]@.len() implies (#[trigger] s2.h[k].data@[i]).v@ == ev(c.h[k]@[i].2, e) by { assert(h[k]@[i] == c.h[k]@[i].2); } }
}
pub proof fn lem_point(comp: ModelStdComp, mp: Map<Node, usize>, n: int, x: Seq<F64>, s: EvState, t: EvState)
    requires numbered(mp, n), shaped(comp, mp, n, s), shaped(comp, mp, n, t), evals(comp, mp, x, s), evals(comp, mp, x, t), cs(comp.constr).h.len() == cs(comp.constr).f.len(),
    ensures s.phi.v@ == t.phi.v@, same_vals(s.gphi, t.gphi), same_vals(s.hphi.data@, t.hphi.data@), same_vals(s.f, t.f), same_vals(s.j.data@, t.j.data@), s.h.len() == t.h.len(), forall|k: int| 0 <= k < s.h.len() ==> same_vals((#[trigger] s.h[k]).data@, t.h[k].data@),
{
    let c = cs(comp.constr);
    assert forall|q: int| 0 <= q < s.gphi.len() implies (#[trigger] s.gphi[q]).v@ == t.gphi[q].v@ by {
        assert(at_index(mp, q)); let v = choose|v: Node| #[trigger] mp.contains_key(v) && mp[v] == q;
        if gin(comp.obj, v) { let i = choose|i: int| 0 <= i < comp.obj.gphi@.len() && (#[trigger] comp.obj.gphi@[i]).0 == v; } }
    assert forall|k: int| 0 <= k < s.f.len() implies (#[trigger] s.f[k]).v@ == t.f[k].v@ by { assert(t.f[k].v@ == ev(c.f[k], env(mp, x))); }
    assert forall|k: int| 0 <= k < s.hphi.data@.len() implies (#[trigger] s.hphi.data@[k]).v@ == t.hphi.data@[k].v@ by { assert(t.hphi.data@[k].v@ == ev(comp.obj.hphi@[k].2, env(mp, x))); }
    assert forall|k: int| 0 <= k < s.j.data@.len() implies (#[trigger] s.j.data@[k]).v@ == t.j.data@[k].v@ by { assert(t.j.data@[k].v@ == ev(c.j[k].2, env(mp, x))); }
    assert forall|k: int| 0 <= k < s.h.len() implies same_vals((#[trigger] s.h[k]).data@, t.h[k].data@) by {
        assert(t.h[k].wf()); assert(hev(c.h[k]@, env(mp, x), t.h[k].data@));
        assert forall|i: int| 0 <= i < s.h[k].data@.len() implies (#[trigger] s.h[k].data@[i]).v@ == t.h[k].data@[i].v@ by { assert(t.h[k].data@[i].v@ == ev(c.h[k]@[i].2, env(mp, x))); } }
}
pub open spec fn same_vals(a: Seq<F64>, b: Seq<F64>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).v@ == b[i].v@ }
pub open spec fn mats_ok(comp: ModelStdComp, mp: Map<Node, usize>, n: int, hm: CooMat, hd: Seq<Node>, jm: CooMat, jd: Seq<Node>, hv: Seq<CooMat>, h: Seq<Vec<Node>>) -> bool {
    let c = cs(comp.constr);
    &&& hmat_at(mp, n, hm, hd, comp.obj.hphi@)
    &&& jm.wf() && jm.shape == (c.f.len() as usize, n as usize) && jtrips(mp, jm.row_inds@, jm.col_inds@, jd, c.j, c.j.len() as int)
    &&& hv.len() == c.h.len() && h.len() == c.h.len() && forall|k: int| 0 <= k < c.h.len() ==> hmat_at(mp, n, #[trigger] hv[k], h[k]@, c.h[k]@)
}
pub proof fn lem_thirds(mp: Map<Node, usize>, n: int, m: CooMat, d: Seq<Node>, h: Seq<(Node, Node, Node)>) requires hmat_at(mp, n, m, d, h) ensures thirds(d, h), hpat_of(mp, n, m, h)
{
    assert forall|k: int| 0 <= k < h.len() implies #[trigger] d[k] == h[k].2 by { assert(htrip_at(mp, m.row_inds@, m.col_inds@, d, h, k)); }
    assert forall|k: int| 0 <= k < h.len() implies #[trigger] hpos(mp, m, h, k) by { assert(htrip_at(mp, m.row_inds@, m.col_inds@, d, h, k)); }
}
pub proof fn lem_caps(comp: ModelStdComp, mp: Map<Node, usize>, n: int, hm: CooMat, hd: Seq<Node>, jm: CooMat, jd: Seq<Node>, hv: Seq<CooMat>, h: Seq<Vec<Node>>)
    requires mats_ok(comp, mp, n, hm, hd, jm, jd, hv, h),
    ensures thirds(hd, comp.obj.hphi@), jd.len() == cs(comp.constr).j.len(), forall|k: int| 0 <= k < jd.len() ==> #[trigger] jd[k] == cs(comp.constr).j[k].2, forall|k: int| 0 <= k < cs(comp.constr).h.len() ==> thirds(#[trigger] h[k]@, cs(comp.constr).h[k]@),
{
    let c = cs(comp.constr);
    lem_thirds(mp, n, hm, hd, comp.obj.hphi@);
    assert forall|k: int| 0 <= k < jd.len() implies #[trigger] jd[k] == c.j[k].2 by { assert(jtrip_at(mp, jm.row_inds@, jm.col_inds@, jd, c.j, k)); }
    assert forall|k: int| 0 <= k < c.h.len() implies thirds(#[trigger] h[k]@, c.h[k]@) by { assert(hmat_at(mp, n, hv[k], h[k]@, c.h[k]@)); lem_thirds(mp, n, hv[k], h[k]@, c.h[k]@); }
}
pub proof fn lem_shaped0(comp: ModelStdComp, mp: Map<Node, usize>, n: int, s: EvState, hd: Seq<Node>, jd: Seq<Node>, h: Seq<Vec<Node>>)
    requires mats_ok(comp, mp, n, s.hphi, hd, s.j, jd, s.h, h), zeros(s.gphi), s.gphi.len() == n, s.f.len() == cs(comp.constr).f.len(), cs_inv(cs(comp.constr)), numbered(mp, n),
    ensures shaped(comp, mp, n, s),
{
    let c = cs(comp.constr);
    lem_thirds(mp, n, s.hphi, hd, comp.obj.hphi@);
    assert forall|i: int| 0 <= i < c.j.len() implies #[trigger] jpos(mp, s.j, c.j, i) by { assert(jtrip_at(mp, s.j.row_inds@, s.j.col_inds@, jd, c.j, i)); }
    assert forall|k: int| 0 <= k < s.h.len() implies (#[trigger] s.h[k]).wf() && hpat_of(mp, n, s.h[k], c.h[k]@) by { assert(hmat_at(mp, n, s.h[k], h[k]@, c.h[k]@)); lem_thirds(mp, n, s.h[k], h[k]@, c.h[k]@); }
}
// ---------------------------------------------------------------- solving
/// solver s turns problem p into p2 (evaluation buffers) and reports r
pub uninterp spec fn solved_by<S: ?Sized>(s: &S, p: Problem, p2: Problem, r: Result<(SolverStatus, ProblemSol), SimpleError>) -> bool;
pub struct SimpleError { pub e: Ghost<int> }
pub open spec fn sol_shape(p: Problem, x: ProblemSol) -> bool { let b = pbase(p); x.x@.len() == b.a.shape.1 && x.lam@.len() == b.a.shape.0 && (p is Nlp || p is Minlp ==> x.nu@.len() == b.j.shape.0) && x.mu@.len() == b.a.shape.1 && x.pi@.len() == b.a.shape.1 }
pub trait Solver {
    fn solve(&self, problem: &mut Problem) -> (r: Result<(SolverStatus, ProblemSol), SimpleError>)
        ensures solved_by(self, *old(problem), *final(problem), r), match r { Ok((st, sol)) => sol_shape(*old(problem), sol), Err(_) => true };
}
pub open spec fn in_map(m: Map<usize, Constraint>, v: Seq<F64>, i: usize, c: Constraint, x: F64) -> bool { m.contains_key(i) && m[i] == c && x == v[i as int] }
/// x is the multiplier of a row or active bound that represents c
pub open spec fn mult(m: Map<usize, Constraint>, v: Seq<F64>, c: Constraint, x: F64) -> bool { exists|i: usize| #[trigger] in_map(m, v, i, c, x) }
pub open spec fn mapped(m: Map<usize, Constraint>, c: Constraint) -> bool { exists|i: usize| #[trigger] m.contains_key(i) && m[i] == c }
pub open spec fn primals_ok(mp: Map<Node, usize>, x: Seq<F64>, d: Map<Node, F64>) -> bool { d.dom() == mp.dom() && forall|v: Node| #[trigger] d.contains_key(v) ==> d[v] == x[mp[v] as int] }
pub open spec fn duals_ok(sp: ModelStdProb, sol: ProblemSol, d: Map<Constraint, F64>) -> bool {
    let (a, j, u, l) = (sp.aindex2constr@, sp.jindex2constr@, sp.uindex2constr@, sp.lindex2constr@);
    forall|c: Constraint| #![trigger d.contains_key(c)] (d.contains_key(c) <==> mapped(a, c) || mapped(j, c) || mapped(u, c) || mapped(l, c))
        && (d.contains_key(c) ==> mult(a, sol.lam@, c, d[c]) || mult(j, sol.nu@, c, d[c]) || mult(u, sol.mu@, c, d[c]) || mult(l, sol.pi@, c, d[c]))
}
pub open spec fn same_model(a: Model, b: Model) -> bool { a.objective == b.objective && a.constraints == b.constraints && a.init_primals == b.init_primals }
/// nothing but the solver's result for the standard problem is reported
pub open spec fn reports(m: Model, sp: ModelStdProb, sol: ProblemSol) -> bool { primals_ok(sp.var2index@, sol.x@, m.final_primals@) && duals_ok(sp, sol, m.final_duals@) }
pub open spec fn solve_ok<S: ?Sized>(m: Model, s: &S, m2: Model, sp: ModelStdProb, p2: Problem, r: Result<(SolverStatus, ProblemSol), SimpleError>) -> bool {
    std_prob_ok(m, sp) && solved_by(s, sp.prob, p2, r) && match r { Ok((st, sol)) => m2.solver_status == Some(st) && reports(m2, sp, sol), Err(e) => false } }
pub open spec fn no_result(m: Model) -> bool { m.solver_status is None && m.final_primals@.dom() == Set::<Node>::empty() && m.final_duals@.dom() == Set::<Constraint>::empty() }
/// the duals after the first i entries s of map m were entered over d0
pub open spec fn part_mult(s: Seq<(&usize, &Constraint)>, i: int, v: Seq<F64>, c: Constraint, x: F64) -> bool { exists|q: int| 0 <= q < i && *(#[trigger] s[q]).1 == c && x == v[*s[q].0 as int] }
pub open spec fn part_has(s: Seq<(&usize, &Constraint)>, i: int, c: Constraint) -> bool { exists|q: int| 0 <= q < i && *(#[trigger] s[q]).1 == c }
pub open spec fn entered(d0: Map<Constraint, F64>, s: Seq<(&usize, &Constraint)>, i: int, v: Seq<F64>, d: Map<Constraint, F64>) -> bool {
    forall|c: Constraint| #![trigger d.contains_key(c)] (d.contains_key(c) <==> d0.contains_key(c) || part_has(s, i, c)) && (d.contains_key(c) ==> part_mult(s, i, v, c, d[c]) || d0.contains_key(c) && d[c] == d0[c])
}
pub proof fn lem_enter(d0: Map<Constraint, F64>, s: Seq<(&usize, &Constraint)>, i: int, v: Seq<F64>, d: Map<Constraint, F64>)
    requires entered(d0, s, i, v, d), 0 <= i < s.len(),
    ensures entered(d0, s, i + 1, v, d.insert(*s[i].1, v[*s[i].0 as int])),
{
    let d2 = d.insert(*s[i].1, v[*s[i].0 as int]);
    assert forall|c: Constraint| #![trigger d2.contains_key(c)] (d2.contains_key(c) <==> d0.contains_key(c) || part_has(s, i + 1, c)) && (d2.contains_key(c) ==> part_mult(s, i + 1, v, c, d2[c]) || d0.contains_key(c) && d2[c] == d0[c]) by {
        assert(d.contains_key(c) <==> d0.contains_key(c) || part_has(s, i, c));
        if c == *s[i].1 { assert(part_has(s, i + 1, c)); assert(part_mult(s, i + 1, v, c, d2[c])); }
        else { if part_has(s, i + 1, c) { let q = choose|q: int| 0 <= q < i + 1 && *(#[trigger] s[q]).1 == c; assert(q < i); assert(part_has(s, i, c)); }
            if part_has(s, i, c) { let q = choose|q: int| 0 <= q < i && *(#[trigger] s[q]).1 == c; assert(part_has(s, i + 1, c)); }
            if d.contains_key(c) && part_mult(s, i, v, c, d[c]) { let q = choose|q: int| 0 <= q < i && *(#[trigger] s[q]).1 == c && d[c] == v[*s[q].0 as int]; assert(part_mult(s, i + 1, v, c, d2[c])); } }
    }
}
pub proof fn lem_entered(d0: Map<Constraint, F64>, s: Seq<(&usize, &Constraint)>, v: Seq<F64>, d: Map<Constraint, F64>, m: Map<usize, Constraint>)
    requires entered(d0, s, s.len() as int, v, d), items_of(s, m),
    ensures forall|c: Constraint| #![trigger d.contains_key(c)] (d.contains_key(c) <==> d0.contains_key(c) || mapped(m, c)) && (d.contains_key(c) ==> mult(m, v, c, d[c]) || d0.contains_key(c) && d[c] == d0[c]),
{
    assert forall|c: Constraint| #![trigger d.contains_key(c)] (d.contains_key(c) <==> d0.contains_key(c) || mapped(m, c)) && (d.contains_key(c) ==> mult(m, v, c, d[c]) || d0.contains_key(c) && d[c] == d0[c]) by {
        if part_has(s, s.len() as int, c) { let q = choose|q: int| 0 <= q < s.len() && *(#[trigger] s[q]).1 == c; assert(m.contains_key(*s[q].0)); }
        if mapped(m, c) { let i = choose|i: usize| #[trigger] m.contains_key(i) && m[i] == c; let q = choose|q: int| 0 <= q < s.len() && *(#[trigger] s[q]).0 == i; assert(*s[q].1 == c); }
        if d.contains_key(c) && part_mult(s, s.len() as int, v, c, d[c]) { let q = choose|q: int| 0 <= q < s.len() && *(#[trigger] s[q]).1 == c && d[c] == v[*s[q].0 as int]; assert(in_map(m, v, *s[q].0, c, d[c])); }
    }
}
pub proof fn lem_same_model(a: Model, b: Model, r: ModelStdProb) requires same_model(a, b), std_prob_ok(a, r) ensures std_prob_ok(b, r)
{
    let comp = choose|comp: ModelStdComp| #[trigger] mstd_ok(a, comp) && sprob_ok(a, comp, r);
    let (e, p) = choose|e: Node, p: Seq<ConstraintStdComp>| #[trigger] mstd_of(a, comp, e, p) && cs_inv(cs(comp.constr));
    assert(mstd_of(b, comp, e, p)); assert(mstd_ok(b, comp)); assert(sprob_ok(b, comp, r));
}
pub proof fn lem_trips(mp: Map<Node, usize>, r: Seq<usize>, c: Seq<usize>, d: Seq<F64>, a: Seq<(usize, Node, F64)>, n: int, r1: usize, c1: usize, d1: F64)
    requires trips(mp, r, c, d, a, n), 0 <= n < a.len(), r1 == a[n].0, c1 == mp[a[n].1], d1 == a[n].2,
    ensures trips(mp, r.push(r1), c.push(c1), d.push(d1), a, n + 1)
{ let (r2, c2, d2) = (r.push(r1), c.push(c1), d.push(d1)); assert forall|i: int| 0 <= i < n + 1 implies #[trigger] trip_at(mp, r2, c2, d2, a, i) by { if i < n { assert(trip_at(mp, r, c, d, a, i)); } } }
pub proof fn lem_jtrips(mp: Map<Node, usize>, r: Seq<usize>, c: Seq<usize>, d: Seq<Node>, a: Seq<(usize, Node, Node)>, n: int, r1: usize, c1: usize, d1: Node)
    requires jtrips(mp, r, c, d, a, n), 0 <= n < a.len(), r1 == a[n].0, c1 == mp[a[n].1], d1 == a[n].2,
    ensures jtrips(mp, r.push(r1), c.push(c1), d.push(d1), a, n + 1)
{ let (r2, c2, d2) = (r.push(r1), c.push(c1), d.push(d1)); assert forall|i: int| 0 <= i < n + 1 implies #[trigger] jtrip_at(mp, r2, c2, d2, a, i) by { if i < n { assert(jtrip_at(mp, r, c, d, a, i)); } } }
pub proof fn lem_htrips(mp: Map<Node, usize>, r: Seq<usize>, c: Seq<usize>, d: Seq<Node>, a: Seq<(Node, Node, Node)>, n: int, r1: usize, c1: usize, d1: Node)
    requires htrips(mp, r, c, d, a, n), 0 <= n < a.len(), d1 == a[n].2, ({ let (p, q) = (mp[a[n].0], mp[a[n].1]); r1 == (if p >= q { p } else { q }) && c1 == (if p >= q { q } else { p }) }),
    ensures htrips(mp, r.push(r1), c.push(c1), d.push(d1), a, n + 1)
{ let (r2, c2, d2) = (r.push(r1), c.push(c1), d.push(d1)); assert forall|i: int| 0 <= i < n + 1 implies #[trigger] htrip_at(mp, r2, c2, d2, a, i) by { if i < n { assert(htrip_at(mp, r, c, d, a, i)); } } }
pub proof fn lem_number(s: Seq<Node>, m: Map<Node, usize>)
    requires s.no_duplicates(), forall|k: Node| #[trigger] m.contains_key(k) <==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == k, forall|i: int| 0 <= i < s.len() ==> m[#[trigger] s[i]] == i,
    ensures numbered(m, s.len() as int), forall|k: Node| #[trigger] m.contains_key(k) <==> s.contains(k), m.len() == s.len(),
{
    assert(m.dom() =~= s.to_set());
    s.unique_seq_to_set();
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] at_index(m, j) by { assert(m.contains_key(s[j])); }
}
pub proof fn lem_cov_take(p: Seq<NodeStdProp>, i: int) requires 0 <= i < p.len() ensures forall|k: Node| #[trigger] cov(p.take(i + 1), k) <==> cov(p.take(i), k) || p[i].a@.contains_key(k)
{
    let (s, t) = (p.take(i), p.take(i + 1));
    assert forall|k: Node| #[trigger] cov(t, k) <==> cov(s, k) || p[i].a@.contains_key(k) by {
        if cov(t, k) { let q = choose|q: int| 0 <= q < t.len() && (#[trigger] t[q]).a@.contains_key(k); if q < i { assert(s[q].a@.contains_key(k)); } }
        if cov(s, k) { let q = choose|q: int| 0 <= q < s.len() && (#[trigger] s[q]).a@.contains_key(k); assert(t[q].a@.contains_key(k)); }
        if p[i].a@.contains_key(k) { assert(t[i].a@.contains_key(k)); }
    }
}
} // verus!
