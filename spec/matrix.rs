verus! {
// ------------------------------------------------------------- matrix theory
impl CooMat {
    pub open spec fn wf(&self) -> bool { self.row_inds@.len() == self.col_inds@.len() && self.row_inds@.len() == self.data@.len() }
    pub open spec fn inb(&self) -> bool { forall|k: int| 0 <= k < self.row_inds@.len() ==> #[trigger] self.row_inds@[k] < self.shape.0 }
    pub open spec fn inb_col(&self) -> bool { forall|k: int| 0 <= k < self.col_inds@.len() ==> #[trigger] self.col_inds@[k] < self.shape.1 }
}
/// entries of row i among the first n triplets, in order
pub open spec fn coo_row(r: Seq<usize>, c: Seq<usize>, d: Seq<F64>, n: int, i: int) -> Seq<(usize, F64)> decreases n {
    if n <= 0 { Seq::empty() } else if r[n - 1] == i { coo_row(r, c, d, n - 1, i).push((c[n - 1], d[n - 1])) } else { coo_row(r, c, d, n - 1, i) }
}
pub open spec fn csr_row(c: Seq<usize>, d: Seq<F64>, lo: int, hi: int) -> Seq<(usize, F64)> { Seq::new((hi - lo) as nat, |k: int| (c[lo + k], d[lo + k])) }
pub open spec fn cnt(r: Seq<usize>, n: int, i: int) -> int decreases n { if n <= 0 { 0 } else { cnt(r, n - 1, i) + if r[n - 1] == i { 1int } else { 0 } } }
pub open spec fn cntlt(r: Seq<usize>, n: int, i: int) -> int decreases n { if n <= 0 { 0 } else { cntlt(r, n - 1, i) + if r[n - 1] < i { 1int } else { 0 } } }
pub proof fn lem_cnt(r: Seq<usize>, n: int, i: int) requires 0 <= n <= r.len() ensures cntlt(r, n, i + 1) == cntlt(r, n, i) + cnt(r, n, i), 0 <= cnt(r, n, i) <= n, 0 <= cntlt(r, n, i) <= n, cntlt(r, n, 0) == 0 decreases n { if n > 0 { lem_cnt(r, n - 1, i); } }
pub proof fn lem_cntlt_all(r: Seq<usize>, n: int, m: int) requires 0 <= n <= r.len(), forall|k: int| 0 <= k < r.len() ==> #[trigger] r[k] < m ensures cntlt(r, n, m) == n decreases n { if n > 0 { lem_cntlt_all(r, n - 1, m); } }
pub proof fn lem_cnt_mono(r: Seq<usize>, n: int, m: int, i: int) requires 0 <= n <= m <= r.len() ensures cnt(r, n, i) <= cnt(r, m, i) decreases m { if n < m { lem_cnt_mono(r, n, m - 1, i); } }
pub proof fn lem_cntlt_mono(r: Seq<usize>, n: int, i: int, j: int) requires 0 <= n <= r.len(), i <= j ensures cntlt(r, n, i) <= cntlt(r, n, j) decreases n { if n > 0 { lem_cntlt_mono(r, n - 1, i, j); } }
pub proof fn lem_row_len(r: Seq<usize>, c: Seq<usize>, d: Seq<F64>, n: int, i: int) requires 0 <= n <= r.len() ensures coo_row(r, c, d, n, i).len() == cnt(r, n, i) decreases n { if n > 0 { lem_row_len(r, c, d, n - 1, i); } }
/// sum, in order, of the entries of column `col` in positions lo..hi; None when there is none
pub open spec fn csum(c: Seq<usize>, d: Seq<F64>, lo: int, hi: int, col: int) -> Option<FV> decreases hi - lo {
    if hi <= lo { None } else if c[hi - 1] == col { match csum(c, d, lo, hi - 1, col) { None => Some(d[hi - 1].v@), Some(s) => Some(fv_add(s, d[hi - 1].v@)) } }
    else { csum(c, d, lo, hi - 1, col) }
}
impl CsrMat {
    pub open spec fn wf(&self) -> bool {
        &&& self.indptr@.len() == self.shape.0 + 1 && self.indices@.len() == self.data@.len()
        &&& self.indptr@[0] == 0 && self.indptr@[self.shape.0 as int] == self.data@.len()
        &&& forall|i: int, j: int| 0 <= i <= j <= self.shape.0 ==> #[trigger] self.indptr@[i] <= #[trigger] self.indptr@[j]
    }
    pub open spec fn inb_col(&self) -> bool { forall|k: int| 0 <= k < self.indices@.len() ==> #[trigger] self.indices@[k] < self.shape.1 }
    pub open spec fn row(&self, i: int) -> Seq<(usize, F64)> { csr_row(self.indices@, self.data@, self.indptr@[i] as int, self.indptr@[i + 1] as int) }
    pub open spec fn entry(&self, i: int, col: int) -> Option<FV> { csum(self.indices@, self.data@, self.indptr@[i] as int, self.indptr@[i + 1] as int, col) }
}
pub proof fn lem_csum_frame(c: Seq<usize>, d: Seq<F64>, c2: Seq<usize>, d2: Seq<F64>, lo: int, hi: int, col: int)
    requires 0 <= lo <= hi <= c.len(), hi <= d.len(), hi <= c2.len(), hi <= d2.len(), forall|k: int| lo <= k < hi ==> c[k] == c2[k] && d[k] == d2[k]
    ensures csum(c, d, lo, hi, col) == csum(c2, d2, lo, hi, col) decreases hi - lo { if lo < hi { lem_csum_frame(c, d, c2, d2, lo, hi - 1, col); } }
/// a column that occurs once in lo..hi has the value at its position
pub proof fn lem_csum_single(c: Seq<usize>, d: Seq<F64>, lo: int, hi: int, col: int, p: int)
    requires 0 <= lo <= hi <= c.len(), hi <= d.len(), lo <= p < hi, c[p] == col, forall|k: int| lo <= k < hi && c[k] == col ==> k == p
    ensures csum(c, d, lo, hi, col) == Some(d[p].v@) decreases hi - lo { if p < hi - 1 { lem_csum_single(c, d, lo, hi - 1, col, p); } else { lem_csum_none(c, d, lo, hi - 1, col); } }
pub proof fn lem_csum_none(c: Seq<usize>, d: Seq<F64>, lo: int, hi: int, col: int)
    requires 0 <= lo <= hi <= c.len(), hi <= d.len(), forall|k: int| lo <= k < hi ==> c[k] != col
    ensures csum(c, d, lo, hi, col) is None decreases hi - lo { if lo < hi { lem_csum_none(c, d, lo, hi - 1, col); } }
/// dot product of row i with x over the first n triplets, left to right
pub open spec fn coo_dot(m: &CooMat, x: Seq<F64>, n: int, i: int) -> FV decreases n {
    if n <= 0 { FV::R(0real) } else if m.row_inds@[n - 1] == i { fv_add(coo_dot(m, x, n - 1, i), fv_mul(x[m.col_inds@[n - 1] as int].v@, m.data@[n - 1].v@)) } else { coo_dot(m, x, n - 1, i) }
}
} // verus!
verus! {
/// distinct columns of positions lo..hi in order of first occurrence
pub open spec fn uniq(c: Seq<usize>, lo: int, hi: int) -> Seq<usize> decreases hi - lo {
    if hi <= lo { Seq::empty() } else { let u = uniq(c, lo, hi - 1); if u.contains(c[hi - 1]) { u } else { u.push(c[hi - 1]) } }
}
/// position of row r after the duplicates are summed
pub open spec fn uoff(c: Seq<usize>, p: Seq<usize>, r: int) -> int decreases r { if r <= 0 { 0 } else { uoff(c, p, r - 1) + uniq(c, p[r - 1] as int, p[r] as int).len() } }
pub proof fn lem_uniq(c: Seq<usize>, lo: int, hi: int) requires 0 <= lo <= hi <= c.len()
    ensures uniq(c, lo, hi).len() <= hi - lo, uniq(c, lo, hi).no_duplicates(),
        forall|x: usize| #[trigger] uniq(c, lo, hi).contains(x) <==> (exists|k: int| lo <= k < hi && #[trigger] c[k] == x)
    decreases hi - lo
{
    if lo < hi {
        lem_uniq(c, lo, hi - 1);
        let u = uniq(c, lo, hi - 1);
        assert forall|x: usize| #[trigger] uniq(c, lo, hi).contains(x) <==> (exists|k: int| lo <= k < hi && #[trigger] c[k] == x) by {
            if uniq(c, lo, hi).contains(x) {
                if u.contains(x) {} else { assert(x == c[hi - 1]); }
            }
            if exists|k: int| lo <= k < hi && #[trigger] c[k] == x {
                let k = choose|k: int| lo <= k < hi && #[trigger] c[k] == x;
                if k < hi - 1 { assert(u.contains(x)); let j = choose|j: int| 0 <= j < u.len() && u[j] == x; assert(uniq(c, lo, hi)[j] == x); }
                else if !u.contains(x) { assert(uniq(c, lo, hi)[u.len() as int] == x); }
            }
        }
    }
}
pub proof fn lem_uoff(c: Seq<usize>, p: Seq<usize>, r: int, n: int)
    requires 0 <= r < n, n == p.len(), p[0] == 0, forall|i: int, j: int| 0 <= i <= j < n ==> #[trigger] p[i] <= #[trigger] p[j], p[n - 1] <= c.len()
    ensures 0 <= uoff(c, p, r) <= p[r], uoff(c, p, r) <= p[n - 1] decreases r
{ if r > 0 { lem_uoff(c, p, r - 1, n); lem_uniq(c, p[r - 1] as int, p[r] as int); } }
pub proof fn lem_uoff_mono(c: Seq<usize>, p: Seq<usize>, i: int, j: int) requires 0 <= i <= j ensures uoff(c, p, i) <= uoff(c, p, j) decreases j { if i < j { lem_uoff_mono(c, p, i, j - 1); } }
pub open spec fn urow(c: Seq<usize>, p: Seq<usize>, r: int) -> Seq<usize> { uniq(c, p[r] as int, p[r + 1] as int) }
/// row r of the new arrays holds the distinct columns of the old row and the sums of their entries
pub open spec fn row_done(c: Seq<usize>, d: Seq<F64>, p: Seq<usize>, ni: Seq<usize>, nd: Seq<F64>, r: int) -> bool {
    forall|q: int| 0 <= q < urow(c, p, r).len() ==> ni[uoff(c, p, r) + q] == #[trigger] urow(c, p, r)[q]
        && csum(c, d, p[r] as int, p[r + 1] as int, urow(c, p, r)[q] as int) == Some(nd[uoff(c, p, r) + q].v@)
}
pub proof fn lem_row_done_frame(c: Seq<usize>, d: Seq<F64>, p: Seq<usize>, ni: Seq<usize>, nd: Seq<F64>, ni2: Seq<usize>, nd2: Seq<F64>, r: int, n: int)
    requires row_done(c, d, p, ni, nd, r), 0 <= r, uoff(c, p, r + 1) <= n, forall|k: int| 0 <= k < n ==> ni[k] == ni2[k] && nd[k] == nd2[k]
    ensures row_done(c, d, p, ni2, nd2, r)
{
    lem_uoff_mono(c, p, 0, r);
    assert(uoff(c, p, r + 1) == uoff(c, p, r) + urow(c, p, r).len());
    assert forall|q: int| 0 <= q < urow(c, p, r).len() implies ni2[uoff(c, p, r) + q] == #[trigger] urow(c, p, r)[q]
        && csum(c, d, p[r] as int, p[r + 1] as int, urow(c, p, r)[q] as int) == Some(nd2[uoff(c, p, r) + q].v@) by { assert(ni[uoff(c, p, r) + q] == urow(c, p, r)[q]); }
}
/// what "duplicates summed" means for the matrix m made from o
pub open spec fn summed(o: CsrMat, m: CsrMat) -> bool {
    &&& m.wf() && m.shape == o.shape && m.inb_col()
    &&& forall|i: int| 0 <= i < o.shape.0 ==> #[trigger] m.indices@.subrange(m.indptr@[i] as int, m.indptr@[i + 1] as int) == uniq(o.indices@, o.indptr@[i] as int, o.indptr@[i + 1] as int)
    &&& forall|i: int, col: int| 0 <= i < o.shape.0 ==> #[trigger] m.entry(i, col) == o.entry(i, col)
}
pub proof fn lem_csum_some(c: Seq<usize>, d: Seq<F64>, lo: int, hi: int, col: int)
    requires 0 <= lo <= hi <= c.len(), hi <= d.len()
    ensures csum(c, d, lo, hi, col) is None <==> (forall|k: int| lo <= k < hi ==> #[trigger] c[k] != col) decreases hi - lo { if lo < hi { lem_csum_some(c, d, lo, hi - 1, col); } }
/// entry of a row without duplicates, from the values at its positions
pub proof fn lem_entry(oc: Seq<usize>, od: Seq<F64>, ol: int, oh: int, c: Seq<usize>, d: Seq<F64>, lo: int, hi: int, col: int)
    requires 0 <= ol <= oh <= oc.len(), oh <= od.len(), 0 <= lo <= hi <= c.len(), hi <= d.len(),
        c.subrange(lo, hi) == uniq(oc, ol, oh),
        forall|q: int| lo <= q < hi ==> csum(oc, od, ol, oh, #[trigger] c[q] as int) == Some(d[q].v@),
    ensures csum(c, d, lo, hi, col) == csum(oc, od, ol, oh, col)
{
    lem_uniq(oc, ol, oh);
    let u = uniq(oc, ol, oh);
    lem_csum_some(oc, od, ol, oh, col);
    if exists|k: int| ol <= k < oh && #[trigger] oc[k] == col {
        let k = choose|k: int| ol <= k < oh && #[trigger] oc[k] == col;
        assert(u.contains(oc[k]));
        let j = choose|j: int| 0 <= j < u.len() && u[j] == oc[k];
        assert(c.subrange(lo, hi)[j] == c[lo + j]);
        assert forall|q: int| lo <= q < hi && c[q] == col implies q == lo + j by { assert(c.subrange(lo, hi)[q - lo] == c[q]); }
        lem_csum_single(c, d, lo, hi, col, lo + j);
    } else {
        assert forall|q: int| lo <= q < hi implies c[q] != col by { assert(c.subrange(lo, hi)[q - lo] == c[q]); assert(u.contains(c[q])); }
        lem_csum_none(c, d, lo, hi, col);
    }
}
pub open spec fn nodup_rows(m: CsrMat) -> bool { forall|i: int| 0 <= i < m.shape.0 ==> #[trigger] m.indices@.subrange(m.indptr@[i] as int, m.indptr@[i + 1] as int).no_duplicates() }
pub proof fn lem_uniq_id(c: Seq<usize>, lo: int, hi: int) requires 0 <= lo <= hi <= c.len(), c.subrange(lo, hi).no_duplicates() ensures uniq(c, lo, hi) =~= c.subrange(lo, hi) decreases hi - lo {
    if lo < hi {
        assert forall|i: int, j: int| 0 <= i < hi - 1 - lo && 0 <= j < hi - 1 - lo && i != j implies (#[trigger] c.subrange(lo, hi - 1)[i]) != (#[trigger] c.subrange(lo, hi - 1)[j]) by { assert(c.subrange(lo, hi)[i] == c[lo + i]); assert(c.subrange(lo, hi)[j] == c[lo + j]); assert(c.subrange(lo, hi)[i] != c.subrange(lo, hi)[j]); }
        lem_uniq_id(c, lo, hi - 1);
        let u = uniq(c, lo, hi - 1);
        if u.contains(c[hi - 1]) { let j = choose|j: int| 0 <= j < u.len() && u[j] == c[hi - 1]; assert(c.subrange(lo, hi - 1)[j] == c[lo + j]); assert(c.subrange(lo, hi)[j] == c[lo + j]); assert(c.subrange(lo, hi)[hi - 1 - lo] == c[hi - 1]); assert(false); }
    }
}
pub open spec fn same_at(o: CsrMat, m: CsrMat, k: int) -> bool { o.indices@[k] == m.indices@[k] && m.data@[k].v@ == o.data@[k].v@ }
pub open spec fn same_prefix(o: CsrMat, m: CsrMat, n: int) -> bool { forall|k: int| 0 <= k < n ==> #[trigger] same_at(o, m, k) }
pub proof fn lem_summed_at(o: CsrMat, m: CsrMat, i: int, k: int)
    requires o.wf(), o.inb_col(), summed(o, m), nodup_rows(o), 0 <= i < o.shape.0, m.indptr@[i] == o.indptr@[i], o.indptr@[i] <= k < o.indptr@[i + 1]
    ensures m.indptr@[i + 1] == o.indptr@[i + 1], same_at(o, m, k)
{
    let (lo, hi) = (o.indptr@[i] as int, o.indptr@[i + 1] as int);
    let (ml, mh) = (m.indptr@[i] as int, m.indptr@[i + 1] as int);
    lem_summed_len(o, m, i);
    assert(m.indices@.subrange(ml, mh)[k - lo] == m.indices@[k]);
    assert(o.indices@.subrange(lo, hi)[k - lo] == o.indices@[k]);
    let col = o.indices@[k] as int;
    assert forall|q: int| lo <= q < hi && o.indices@[q] == col implies q == k by { assert(o.indices@.subrange(lo, hi)[q - lo] == o.indices@[q]); }
    assert forall|q: int| lo <= q < hi && m.indices@[q] == col implies q == k by { assert(m.indices@.subrange(ml, mh)[q - lo] == m.indices@[q]); assert(o.indices@.subrange(lo, hi)[q - lo] == o.indices@[q]); }
    lem_csum_single(o.indices@, o.data@, lo, hi, col, k);
    lem_csum_single(m.indices@, m.data@, lo, hi, col, k);
    assert(m.entry(i, col) == o.entry(i, col));
}
pub proof fn lem_summed_len(o: CsrMat, m: CsrMat, i: int)
    requires o.wf(), o.inb_col(), summed(o, m), nodup_rows(o), 0 <= i < o.shape.0, m.indptr@[i] == o.indptr@[i]
    ensures m.indptr@[i + 1] == o.indptr@[i + 1], m.indices@.subrange(m.indptr@[i] as int, m.indptr@[i + 1] as int) == o.indices@.subrange(o.indptr@[i] as int, o.indptr@[i + 1] as int),
        0 <= o.indptr@[i] <= o.indptr@[i + 1] <= o.indices@.len(), o.indptr@[i + 1] <= m.indices@.len(), o.indices@.subrange(o.indptr@[i] as int, o.indptr@[i + 1] as int).no_duplicates()
{
    let (lo, hi) = (o.indptr@[i] as int, o.indptr@[i + 1] as int);
    assert(o.indices@.subrange(o.indptr@[i] as int, o.indptr@[i + 1] as int).no_duplicates());
    assert(o.indptr@[i] <= o.indptr@[i + 1] && o.indptr@[i + 1] <= o.indptr@[o.shape.0 as int]);
    assert(m.indptr@[i] <= m.indptr@[i + 1] && m.indptr@[i + 1] <= m.indptr@[o.shape.0 as int]);
    lem_uniq_id(o.indices@, lo, hi);
    assert(m.indices@.subrange(m.indptr@[i] as int, m.indptr@[i + 1] as int) == uniq(o.indices@, lo, hi));
}
/// M02: a matrix without duplicates is unchanged
pub proof fn lem_summed_id(o: CsrMat, m: CsrMat, r: int)
    requires o.wf(), o.inb_col(), summed(o, m), nodup_rows(o), 0 <= r <= o.shape.0
    ensures m.indptr@[r] == o.indptr@[r], same_prefix(o, m, o.indptr@[r] as int)
    decreases r
{
    if r > 0 {
        lem_summed_id(o, m, r - 1);
        lem_summed_len(o, m, r - 1);
        assert forall|k: int| 0 <= k < o.indptr@[r] implies #[trigger] same_at(o, m, k) by { if k >= o.indptr@[r - 1] { lem_summed_at(o, m, r - 1, k); } }
    }
}
} // verus!
