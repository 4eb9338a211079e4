== fn CooMat::new
ret r
    requires row_inds@.len() == col_inds@.len(), row_inds@.len() == data@.len(),
    ensures r.shape == shape, r.row_inds@ == row_inds@, r.col_inds@ == col_inds@, r.data@ == data@, r.wf(),
== fn CooMat::from_pattern
ret r
    requires row_inds@.len() == col_inds@.len(),
    ensures r.shape == shape, r.row_inds@ == row_inds@, r.col_inds@ == col_inds@, r.wf(),
        forall|k: int| 0 <= k < r.data@.len() ==> (#[trigger] r.data@[k]).v@ == FV::R(0real),
== fn CooMat::from_nnz
ret r
    ensures r.shape == shape, r.wf(), r.data@.len() == nnz,
        forall|k: int| 0 <= k < nnz ==> r.row_inds@[k] == 0 && r.col_inds@[k] == 0 && (#[trigger] r.data@[k]).v@ == FV::R(0real),
== fn CooMat::rows | CsrMat::rows
ret r
    ensures r == self.shape.0,
== fn CooMat::cols | CsrMat::cols
ret r
    ensures r == self.shape.1,
== fn CooMat::nnz
ret r
    requires self.wf(),
    ensures r == self.row_inds@.len(),
== fn CooMat::row_inds
ret r
    ensures r@ == self.row_inds@,
== fn CooMat::col_inds
ret r
    ensures r@ == self.col_inds@,
== fn CooMat::data
ret r
    ensures r@ == self.data@,
== fn CooMat::data_mut
ret r
    ensures r@ == old(self).data@, final(self).data@ == final(r)@,
        final(self).shape == old(self).shape, final(self).row_inds@ == old(self).row_inds@, final(self).col_inds@ == old(self).col_inds@,
== fn CooMat::set_row_ind
ret r
    requires k < old(self).row_inds@.len(),
    ensures final(self).row_inds@ == old(self).row_inds@.update(k as int, row), final(self).col_inds@ == old(self).col_inds@,
        final(self).data@ == old(self).data@, final(self).shape == old(self).shape,
== fn CooMat::set_col_ind
ret r
    requires k < old(self).col_inds@.len(),
    ensures final(self).col_inds@ == old(self).col_inds@.update(k as int, row), final(self).row_inds@ == old(self).row_inds@,
        final(self).data@ == old(self).data@, final(self).shape == old(self).shape,
== fn CooMat::iter
ret r
    ensures r.k == 0, r.mat == self,
== fn CooMatIter::new
ret r
    ensures r.k == 0, r.mat == mat,
== fn Iterator for CooMatIter<T>::next
inherent
ret r
    requires old(self).mat.wf(), old(self).k <= old(self).mat.row_inds@.len(),
    ensures final(self).mat == old(self).mat,
        old(self).k < old(self).mat.row_inds@.len() ==> final(self).k == old(self).k + 1 && r is Some
            && *(r->0).0 == old(self).mat.row_inds@[old(self).k as int]
            && *(r->0).1 == old(self).mat.col_inds@[old(self).k as int]
            && *(r->0).2 == old(self).mat.data@[old(self).k as int],
        old(self).k >= old(self).mat.row_inds@.len() ==> r is None && final(self).k == 0,
== fn CooMat::to_csr
ret m
loops 3
    requires self.wf(), self.inb(), self.shape.0 < usize::MAX,
    ensures m.wf(), m.shape == self.shape,
        m.indices@.len() == self.row_inds@.len(),
        forall|i: int| 0 <= i < self.shape.0 ==> #[trigger] m.row(i) == coo_row(self.row_inds@, self.col_inds@, self.data@, self.row_inds@.len() as int, i),
        self.inb_col() ==> m.inb_col(),
== at begin
    let ghost gn = self.row_inds@.len() as int;
    let ghost gr = self.row_inds@;
    let ghost gc = self.col_inds@;
    let ghost gd = self.data@;
== loop 0
    invariant self.wf(), self.inb(), counter@.len() == self.shape.0, gr == self.row_inds@, __s0@ == self.row_inds@, __len0 == gr.len(),
        forall|i: int| 0 <= i < self.shape.0 ==> #[trigger] counter@[i] == cnt(gr, __i0 as int, i),
== at loop 0 begin
    proof { assert(self.row_inds@[__i0 as int] < self.shape.0); lem_cnt(gr, __i0 as int, self.row_inds@[__i0 as int] as int); }
== at loop 1 before
    proof { lem_cnt(gr, gn, 0); }
== loop 1
    invariant self.wf(), counter@.len() == self.shape.0, indptr@.len() == self.shape.0 + 1, gn == gr.len(), gn == self.data.len(), gr == self.row_inds@,
        __s1@ == counter@, __len1 == counter@.len(),
        forall|i: int| 0 <= i < self.shape.0 ==> #[trigger] counter@[i] == cnt(gr, gn, i),
        offset == cntlt(gr, gn, __i1 as int),
        forall|i: int| 0 <= i <= __i1 ==> #[trigger] indptr@[i] == cntlt(gr, gn, i),
== at loop 1 begin
    proof { lem_cnt(gr, gn, __i1 as int); lem_cnt(gr, gn, __i1 + 1); assert(counter@[__i1 as int] == cnt(gr, gn, __i1 as int)); }
== at loop 1 after
    proof { lem_cntlt_all(gr, gn, self.shape.0 as int); assert(indptr@[self.shape.0 as int] == gn); }
== loop 2 next
    invariant_except_break self.wf(), self.inb(), __n2.mat == self, __n2.k <= gn, gn == self.row_inds@.len(), gr == self.row_inds@, gc == self.col_inds@, gd == self.data@,
        counter@.len() == self.shape.0, indptr@.len() == self.shape.0 + 1, indices@.len() == gn, data@.len() == gn, gn == self.data.len(),
        forall|i: int| 0 <= i <= self.shape.0 ==> #[trigger] indptr@[i] == cntlt(gr, gn, i),
        forall|i: int| 0 <= i < self.shape.0 ==> #[trigger] counter@[i] == cnt(gr, __n2.k as int, i),
        forall|i: int, q: int| 0 <= i < self.shape.0 && 0 <= q < cnt(gr, __n2.k as int, i) ==>
            (indices@[cntlt(gr, gn, i) + q], data@[cntlt(gr, gn, i) + q]) == #[trigger] coo_row(gr, gc, gd, __n2.k as int, i)[q],
        self.inb_col() ==> (forall|k: int| 0 <= k < gn ==> #[trigger] indices@[k] < self.shape.1 || indices@[k] == 0),
    ensures self.inb_col() ==> (forall|k: int| 0 <= k < gn ==> #[trigger] indices@[k] < self.shape.1 || indices@[k] == 0),
        indices@.len() == gn, data@.len() == gn,
        forall|i: int, q: int| 0 <= i < self.shape.0 && 0 <= q < cnt(gr, gn, i) ==>
            (indices@[cntlt(gr, gn, i) + q], data@[cntlt(gr, gn, i) + q]) == #[trigger] coo_row(gr, gc, gd, gn, i)[q],
    decreases gn - __n2.k,
== at loop 2 begin
    let ghost gk = __n2.k - 1;
    let ghost gi = *row as int;
    let ghost goi = indices@;
    let ghost god = data@;
    proof {
        assert(self.row_inds@[gk] < self.shape.0);
        lem_cnt(gr, gk, gi); lem_cnt(gr, gk + 1, gi); lem_cnt(gr, gn, gi); lem_cnt_mono(gr, gk + 1, gn, gi); lem_cnt(gr, gn, gi + 1);
        assert(indptr@[gi] == cntlt(gr, gn, gi));
        assert(counter@[gi] == cnt(gr, gk, gi));
    }
== at loop 2 end
    proof {
        let p = cntlt(gr, gn, gi) + cnt(gr, gk, gi);
        assert forall|i: int, q: int| 0 <= i < self.shape.0 && 0 <= q < cnt(gr, gk + 1, i) implies
            (indices@[cntlt(gr, gn, i) + q], data@[cntlt(gr, gn, i) + q]) == #[trigger] coo_row(gr, gc, gd, gk + 1, i)[q] by {
            lem_row_len(gr, gc, gd, gk, i); lem_row_len(gr, gc, gd, gk + 1, i);
            lem_cnt_mono(gr, gk + 1, gn, i);
            lem_cnt(gr, gn, i);
            if i < gi { lem_cntlt_mono(gr, gn, i + 1, gi); }
            if i > gi { lem_cntlt_mono(gr, gn, gi + 1, i); }
            lem_cnt(gr, gn, gi);
            if q < cnt(gr, gk, i) { assert((goi[cntlt(gr, gn, i) + q], god[cntlt(gr, gn, i) + q]) == coo_row(gr, gc, gd, gk, i)[q]); }
        }
        assert(self.col_inds@[gk] == *col);
    }
== at loop 2 after
    proof {
        assert forall|i: int| 0 <= i < self.shape.0 implies #[trigger] csr_row(indices@, data@, indptr@[i] as int, indptr@[i + 1] as int) =~= coo_row(gr, gc, gd, gn, i) by {
            lem_cnt(gr, gn, i); lem_row_len(gr, gc, gd, gn, i);
            assert(indptr@[i] == cntlt(gr, gn, i));
            assert(indptr@[i + 1] == cntlt(gr, gn, i + 1));
            assert forall|q: int| 0 <= q < cnt(gr, gn, i) implies csr_row(indices@, data@, indptr@[i] as int, indptr@[i + 1] as int)[q] == coo_row(gr, gc, gd, gn, i)[q] by {}
        }
        assert forall|i: int, j: int| 0 <= i <= j <= self.shape.0 implies #[trigger] indptr@[i] <= #[trigger] indptr@[j] by { lem_cntlt_mono(gr, gn, i, j); }
        if self.inb_col() && gn > 0 { assert(self.col_inds@[0] < self.shape.1); }
    }
== fn Mul<Vec<T>> for &CooMat<T>::mul
ret y
loops 1
req self.wf() && self.inb() && self.inb_col() && self.shape.1 == rhs@.len()
    ensures y@.len() == self.shape.0, forall|i: int| 0 <= i < self.shape.0 ==> (#[trigger] y@[i]).v@ == coo_dot(self, rhs@, self.row_inds@.len() as int, i),
== loop 0 next
    invariant_except_break self.wf(), self.inb(), self.inb_col(), self.shape.1 == rhs@.len(), __n0.mat == self, __n0.k <= self.row_inds@.len(), y@.len() == self.shape.0,
        forall|i: int| 0 <= i < self.shape.0 ==> (#[trigger] y@[i]).v@ == coo_dot(self, rhs@, __n0.k as int, i),
    ensures y@.len() == self.shape.0, forall|i: int| 0 <= i < self.shape.0 ==> (#[trigger] y@[i]).v@ == coo_dot(self, rhs@, self.row_inds@.len() as int, i),
    decreases self.row_inds@.len() - __n0.k,
== at loop 0 begin
    proof { assert(self.row_inds@[__n0.k - 1] < self.shape.0); assert(self.col_inds@[__n0.k - 1] < self.shape.1); }
== fn CsrMat::new
ret r
    requires indptr@.len() == shape.0 + 1, indices@.len() == data@.len(), indptr@[shape.0 as int] == data@.len(),
    ensures r.shape == shape, r.indptr@ == indptr@, r.indices@ == indices@, r.data@ == data@,
== fn CsrMat::nnz
ret r
    ensures r == self.indices@.len(),
== fn CsrMat::indptr
ret r
    ensures r@ == self.indptr@,
== fn CsrMat::indices
ret r
    ensures r@ == self.indices@,
== fn CsrMat::data
ret r
    ensures r@ == self.data@,
== fn CsrMat::sum_duplicates
loops 3
    requires old(self).wf(), old(self).inb_col(),
    ensures summed(*old(self), *final(self)),
        nodup_rows(*old(self)) ==> final(self).indptr@ == old(self).indptr@ && final(self).indices@ == old(self).indices@,
== at begin
    let ghost go = *self;
    let ghost gc = self.indices@;
    let ghost gd = self.data@;
    let ghost gp = self.indptr@;
    let ghost gnr = self.shape.0 as int;
    let ghost gnc = self.shape.1 as int;
    proof { assert(gc.len() == self.indices.len()); assert(gp.len() == self.indptr.len()); }
== loop 0
    invariant *self == go, go.wf(), go.inb_col(), gc == go.indices@, gd == go.data@, gp == go.indptr@, gnr == go.shape.0, gnc == go.shape.1,
        colseen@.len() == gnc, colrow@.len() == gnc, colnewk@.len() == gnc, new_counter@.len() == gnr,
        new_indices@.len() == new_k, new_data@.len() == new_k, new_k == uoff(gc, gp, row as int),
        forall|x: int| 0 <= x < gnc && colseen@[x] ==> #[trigger] colrow@[x] < row,
        forall|r: int| row <= r < gnr ==> #[trigger] new_counter@[r] == 0,
        forall|r: int| 0 <= r < row ==> #[trigger] new_counter@[r] == uniq(gc, gp[r] as int, gp[r + 1] as int).len(),
        forall|k: int| 0 <= k < new_k ==> #[trigger] new_indices@[k] < gnc,
        forall|r: int| 0 <= r < row ==> #[trigger] row_done(gc, gd, gp, new_indices@, new_data@, r),
== at loop 0 begin
    let ghost base = new_k as int;
    proof { assert(gp[row as int] <= gp[row + 1]); assert(gp[row + 1] <= gp[gnr]); lem_uoff(gc, gp, row as int, gnr + 1); }
== loop 1
    invariant *self == go, go.wf(), go.inb_col(), gc == go.indices@, gd == go.data@, gp == go.indptr@, gnr == go.shape.0, gnc == go.shape.1, 0 <= row < gnr,
        gp[row as int] <= gp[row + 1] <= gc.len(), base == uoff(gc, gp, row as int), base <= gp[row as int],
        gp[row as int] <= k,
        colseen@.len() == gnc, colrow@.len() == gnc, colnewk@.len() == gnc, new_counter@.len() == gnr,
        new_indices@.len() == new_k, new_data@.len() == new_k, new_k == base + uniq(gc, gp[row as int] as int, k as int).len(),
        forall|x: int| 0 <= x < gnc && colseen@[x] ==> #[trigger] colrow@[x] <= row,
        forall|r: int| row < r < gnr ==> #[trigger] new_counter@[r] == 0,
        forall|r: int| 0 <= r < row ==> #[trigger] new_counter@[r] == uniq(gc, gp[r] as int, gp[r + 1] as int).len(),
        new_counter@[row as int] == uniq(gc, gp[row as int] as int, k as int).len(),
        forall|k: int| 0 <= k < new_k ==> #[trigger] new_indices@[k] < gnc,
        forall|r: int| 0 <= r < row ==> #[trigger] row_done(gc, gd, gp, new_indices@, new_data@, r),
        forall|q: int| base <= q < new_k ==> #[trigger] new_indices@[q] == uniq(gc, gp[row as int] as int, k as int)[q - base],
        forall|q: int| base <= q < new_k ==> csum(gc, gd, gp[row as int] as int, k as int, #[trigger] new_indices@[q] as int) == Some(new_data@[q].v@),
        forall|x: int| 0 <= x < gnc && colseen@[x] && #[trigger] colrow@[x] == row ==> base <= colnewk@[x] < new_k && new_indices@[colnewk@[x] as int] == x,
        forall|q: int| base <= q < new_k ==> colseen@[#[trigger] new_indices@[q] as int] && colrow@[new_indices@[q] as int] == row,
== at loop 1 begin
    let ghost glo = gp[row as int] as int;
    let ghost gu = uniq(gc, glo, k as int);
    let ghost gni = new_indices@;
    let ghost gnd = new_data@;
    let ghost seen = colseen@[gc[k as int] as int] && colrow@[gc[k as int] as int] == row;
    proof {
        lem_uniq(gc, glo, k as int); lem_uniq(gc, glo, k + 1);
        assert(go.indices@[k as int] < go.shape.1);
        let x = gc[k as int];
        if seen { assert(gni[colnewk@[x as int] as int] == x); assert(gu[colnewk@[x as int] - base] == x); assert(gu.contains(x)); }
        else if gu.contains(x) { let j = choose|j: int| 0 <= j < gu.len() && gu[j] == x; assert(gni[base + j] == x); assert(false); }
        lem_csum_some(gc, gd, glo, k as int, x as int);
        if !seen && csum(gc, gd, glo, k as int, x as int) is Some { let j = choose|j: int| glo <= j < k && gc[j] == x; assert(gc[j] == x); assert(gu.contains(x)); assert(false); }
    }
== at loop 1 end
    proof {
        let x = gc[k as int];
        assert forall|q: int| base <= q < new_k implies csum(gc, gd, glo, k + 1, #[trigger] new_indices@[q] as int) == Some(new_data@[q].v@) by {
            if q < gni.len() {
                assert(gni[q] == new_indices@[q]);
                assert(csum(gc, gd, glo, k as int, gni[q] as int) == Some(gnd[q].v@));
                if gni[q] == x {
                    if !seen { assert(gu[q - base] == x); assert(gu.contains(x)); }
                    else {
                        let qq = colnewk@[x as int] as int;
                        assert(gni[qq] == x && gu[qq - base] == x && gu[q - base] == x);
                    }
                } else if seen {
                    assert(q != colnewk@[x as int]);
                }
            }
        }
        assert forall|r: int| 0 <= r < row implies #[trigger] row_done(gc, gd, gp, new_indices@, new_data@, r) by {
            lem_uoff_mono(gc, gp, r + 1, row as int);
            lem_row_done_frame(gc, gd, gp, gni, gnd, new_indices@, new_data@, r, base);
        }
    }
== at loop 0 end
    proof {
        assert(urow(gc, gp, row as int).len() == new_k - base);
        assert forall|q: int| 0 <= q < urow(gc, gp, row as int).len() implies new_indices@[uoff(gc, gp, row as int) + q] == #[trigger] urow(gc, gp, row as int)[q]
            && csum(gc, gd, gp[row as int] as int, gp[row + 1] as int, urow(gc, gp, row as int)[q] as int) == Some(new_data@[uoff(gc, gp, row as int) + q].v@) by {
            assert(new_indices@[base + q] == uniq(gc, gp[row as int] as int, gp[row + 1] as int)[q]);
        }
        assert(row_done(gc, gd, gp, new_indices@, new_data@, row as int));
    }
== loop 2
    invariant new_counter@.len() == gnr, new_indptr@.len() == gnr + 1, __s2@ == new_counter@, __len2 == gnr, offset == uoff(gc, gp, __i2 as int),
        go.wf(), gc == go.indices@, gp == go.indptr@, gnr == go.shape.0, gc.len() <= usize::MAX, gp.len() == gnr + 1,
        forall|r: int| 0 <= r < gnr ==> #[trigger] new_counter@[r] == uniq(gc, gp[r] as int, gp[r + 1] as int).len(),
        forall|r: int| 0 <= r <= __i2 ==> #[trigger] new_indptr@[r] == uoff(gc, gp, r),
== at loop 2 begin
    proof { lem_uoff(gc, gp, __i2 + 1, gnr + 1); assert(new_counter@[__i2 as int] == uniq(gc, gp[__i2 as int] as int, gp[__i2 + 1] as int).len()); }
== at end
    let ghost gni = self.indices@;
    let ghost gnd = self.data@;
    let ghost gnp = self.indptr@;
    proof {
        assert forall|i: int, j: int| 0 <= i <= j <= gnr implies #[trigger] gnp[i] <= #[trigger] gnp[j] by { lem_uoff_mono(gc, gp, i, j); }
        assert(self.wf());
        assert forall|i: int| 0 <= i < gnr implies #[trigger] self.indices@.subrange(self.indptr@[i] as int, self.indptr@[i + 1] as int) == uniq(gc, gp[i] as int, gp[i + 1] as int) by {
            assert(gnp[i] == uoff(gc, gp, i) && gnp[i + 1] == uoff(gc, gp, i + 1)); assert(gnp[i + 1] <= gnp[gnr]);
            assert(row_done(gc, gd, gp, gni, gnd, i)); assert(urow(gc, gp, i) == uniq(gc, gp[i] as int, gp[i + 1] as int)); assert(gnp[i + 1] == gnp[i] + urow(gc, gp, i).len());
            assert forall|q: int| 0 <= q < urow(gc, gp, i).len() implies gni.subrange(gnp[i] as int, gnp[i + 1] as int)[q] == urow(gc, gp, i)[q] by { assert(gni[uoff(gc, gp, i) + q] == urow(gc, gp, i)[q]); }
            assert(gni.subrange(gnp[i] as int, gnp[i + 1] as int) =~= uniq(gc, gp[i] as int, gp[i + 1] as int));
        }
        assert forall|i: int, col: int| 0 <= i < gnr implies #[trigger] self.entry(i, col) == go.entry(i, col) by {
            assert(gnp[i] == uoff(gc, gp, i) && gnp[i + 1] == uoff(gc, gp, i + 1)); assert(gnp[i + 1] <= gnp[gnr]);
            assert(gp[i] <= gp[i + 1] && gp[i + 1] <= gp[gnr]);
            assert(self.indices@.subrange(self.indptr@[i] as int, self.indptr@[i + 1] as int) == uniq(gc, gp[i] as int, gp[i + 1] as int));
            assert forall|q: int| gnp[i] <= q < gnp[i + 1] implies csum(gc, gd, gp[i] as int, gp[i + 1] as int, #[trigger] gni[q] as int) == Some(gnd[q].v@) by {
                let qq = q - gnp[i];
                assert(row_done(gc, gd, gp, gni, gnd, i));
                assert(gni[uoff(gc, gp, i) + qq] == urow(gc, gp, i)[qq]);
            }
            lem_entry(gc, gd, gp[i] as int, gp[i + 1] as int, gni, gnd, gnp[i] as int, gnp[i + 1] as int, col);
        }
        assert(summed(go, *self));
        if nodup_rows(go) {
            assert forall|r: int| 0 <= r <= gnr implies gnp[r] == gp[r] by { lem_summed_id(go, *self, r); }
            lem_summed_id(go, *self, gnr);
            assert(gnp =~= gp); assert forall|k: int| 0 <= k < gni.len() implies gni[k] == gc[k] by { assert(same_at(go, *self, k)); } assert(gni =~= gc);
        }
    }
