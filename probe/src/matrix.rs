use crate::ensure;
use crate::util::*;
use numopt::matrix::coo::CooMat;
use numopt::matrix::csr::CsrMat;

/// random entries within a random shape
pub fn entries(r: &mut Rng, size: usize, rows: usize, cols: usize) -> Vec<(usize, usize, f64)> {
    if rows == 0 || cols == 0 { return Vec::new(); }
    let n = r.range(0, size * 2);
    let mut e: Vec<(usize, usize, f64)> = Vec::new();
    let sorted = r.chance(1, 4);
    for k in 0..n {
        let v = if r.chance(1, 6) { 0. } else { r.small() + k as f64 * 16. * r.below(2) as f64 };
        if k > 0 && r.chance(1, 4) {
            let (i, j, _) = *r.pick(&e);
            e.push((i, j, v));
        } else {
            e.push((r.below(rows), r.below(cols), v));
        }
    }
    if sorted { e.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1))); }
    e
}

pub fn shape(r: &mut Rng, size: usize) -> (usize, usize) {
    {
        let (a, b) = (!r.chance(1, 10) as usize, !r.chance(1, 10) as usize);
        (r.range(a, size.max(1)), r.range(b, size.max(1)))
    }
}

pub fn coo(s: (usize, usize), e: &[(usize, usize, f64)]) -> CooMat<f64> {
    CooMat::new(s, e.iter().map(|x| x.0).collect(), e.iter().map(|x| x.1).collect(), e.iter().map(|x| x.2).collect())
}

pub fn triples(m: &CooMat<f64>) -> Vec<(usize, usize, f64)> {
    (0..m.nnz()).map(|k| (m.row_inds()[k], m.col_inds()[k], m.data()[k])).collect()
}

fn csr_parts(m: &CsrMat<f64>) -> Result<Vec<Vec<(usize, f64)>>, String> {
    let p = m.indptr();
    ensure!(p.len() == m.rows() + 1, "indptr has {} elements for {} rows", p.len(), m.rows());
    ensure!(p[0] == 0, "indptr starts with {}", p[0]);
    ensure!(m.indices().len() == m.data().len(), "indices and data differ in length");
    ensure!(m.nnz() == m.indices().len(), "nnz {} but {} indices", m.nnz(), m.indices().len());
    ensure!(p[m.rows()] == m.nnz(), "indptr ends with {}, nnz is {}", p[m.rows()], m.nnz());
    let mut rows = Vec::new();
    for i in 0..m.rows() {
        ensure!(p[i] <= p[i + 1], "indptr decreases at row {}", i);
        rows.push((p[i]..p[i + 1]).map(|k| (m.indices()[k], m.data()[k])).collect());
    }
    Ok(rows)
}

pub fn m01(c: &mut Ctx) -> R {
    let s = shape(&mut c.rng, c.size);
    let z = c.size;
    let e = entries(&mut c.rng, z, s.0, s.1);
    c.note(format!("shape {:?} entries {:?}", s, e));
    if e.len() >= 2 { c.nt(); }
    let m = coo(s, &e);
    let csr = m.to_csr();
    ensure!(csr.rows() == s.0 && csr.cols() == s.1, "shape of result is ({},{})", csr.rows(), csr.cols());
    let rows = csr_parts(&csr)?;
    for i in 0..s.0 {
        let want: Vec<(usize, f64)> = e.iter().filter(|x| x.0 == i).map(|x| (x.1, x.2)).collect();
        ensure!(rows[i] == want, "row {} is {:?}, expected {:?}", i, rows[i], want);
    }
    ensure!(m.rows() == s.0 && m.cols() == s.1 && triples(&m) == e, "source matrix changed");
    let csr2 = m.to_csr();
    ensure!(csr2.indptr() == csr.indptr() && csr2.indices() == csr.indices() && csr2.data() == csr.data(), "second conversion differs");
    Ok(())
}

fn summed(row: &[(usize, f64)]) -> Vec<(usize, f64)> {
    let mut o: Vec<(usize, f64)> = Vec::new();
    for (j, v) in row {
        match o.iter_mut().find(|x| x.0 == *j) { Some(x) => x.1 += *v, None => o.push((*j, *v)) }
    }
    o
}

pub fn m02(c: &mut Ctx) -> R {
    let s = shape(&mut c.rng, c.size);
    let z = c.size;
    let mut e = entries(&mut c.rng, z, s.0, s.1);
    e.sort_by_key(|x| x.0);
    c.note(format!("shape {:?} entries {:?}", s, e));
    let mut ptr = vec![0usize; s.0 + 1];
    for x in &e { ptr[x.0 + 1] += 1; }
    for i in 0..s.0 { ptr[i + 1] += ptr[i]; }
    let before: Vec<Vec<(usize, f64)>> = (0..s.0).map(|i| e.iter().filter(|x| x.0 == i).map(|x| (x.1, x.2)).collect()).collect();
    let mut m = CsrMat::new(s, ptr, e.iter().map(|x| x.1).collect(), e.iter().map(|x| x.2).collect());
    ensure!(csr_parts(&m)? == before, "row-compressed matrix does not hold the given data");
    let want: Vec<Vec<(usize, f64)>> = before.iter().map(|r| summed(r)).collect();
    if want != before { c.nt(); }
    for round in 0..2 {
        m.sum_duplicates();
        ensure!(m.rows() == s.0 && m.cols() == s.1, "shape changed");
        let got = csr_parts(&m)?;
        for i in 0..s.0 {
            ensure!(got[i].len() == want[i].len() && got[i].iter().zip(&want[i]).all(|(a, b)| a.0 == b.0 && close(a.1, b.1, 100.)),
                "call {}: row {} is {:?}, expected {:?}", round + 1, i, got[i], want[i]);
        }
    }
    Ok(())
}

pub fn m03(c: &mut Ctx) -> R {
    let s = shape(&mut c.rng, c.size);
    let z = c.size;
    let e = entries(&mut c.rng, z, s.0, s.1);
    let v: Vec<f64> = (0..s.1).map(|_| c.rng.small()).collect();
    c.note(format!("shape {:?} entries {:?} vector {:?}", s, e, v));
    if e.len() >= 1 { c.nt(); }
    let m = coo(s, &e);
    ensure!(m.rows() == s.0 && m.cols() == s.1 && m.nnz() == e.len() && triples(&m) == e, "matrix does not hold the given data");
    for k in 0..2 {
        let got: Vec<(usize, usize, f64)> = m.iter().map(|(i, j, v)| (i.clone(), j.clone(), v.clone())).collect();
        ensure!(got == e, "iteration {} gives {:?}", k + 1, got);
    }
    let mut it = m.iter();
    for _ in 0..e.len() { ensure!(it.next().is_some(), "iterator ends early"); }
    ensure!(it.next().is_none(), "iterator does not end");
    let y = &m * v.clone();
    let mut want = vec![0.; s.0];
    for (i, j, a) in &e { want[*i] += a * v[*j]; }
    ensure!(y.len() == s.0 && (0..s.0).all(|i| close(y[i], want[i], 1e4)), "product is {:?}, expected {:?}", y, want);
    ensure!(triples(&m) == e, "product changed the matrix");
    // wrong length
    let w = if s.1 > 0 && c.rng.chance(1, 2) { v[..s.1 - 1].to_vec() } else { let mut w = v.clone(); w.push(1.); w };
    ensure!(panics(|| &m * w.clone()), "product with vector of length {} accepted for {} columns", w.len(), s.1);
    // pattern and count constructors
    let p = CooMat::<f64>::from_pattern(s, e.iter().map(|x| x.0).collect(), e.iter().map(|x| x.1).collect());
    let e0: Vec<_> = e.iter().map(|x| (x.0, x.1, 0.)).collect();
    ensure!(p.rows() == s.0 && p.cols() == s.1 && triples(&p) == e0, "from_pattern holds {:?}", triples(&p));
    let mut q = CooMat::<f64>::from_nnz(s, e.len());
    ensure!(q.rows() == s.0 && q.cols() == s.1 && q.nnz() == e.len() && q.data().iter().all(|x| *x == 0.) && q.data().len() == e.len() && q.col_inds().len() == e.len(), "from_nnz");
    for (k, x) in e.iter().enumerate() { q.set_row_ind(k, x.0); q.set_col_ind(k, x.1); q.data_mut()[k] = x.2; }
    ensure!(triples(&q) == e, "entries set one by one read back as {:?}", triples(&q));
    // lists of different lengths
    if !e.is_empty() {
        let short: Vec<usize> = e.iter().skip(1).map(|x| x.0).collect();
        let full: Vec<usize> = e.iter().map(|x| x.1).collect();
        let d: Vec<f64> = e.iter().map(|x| x.2).collect();
        ensure!(panics(|| CooMat::new(s, short.clone(), full.clone(), d.clone())), "row list shorter than data accepted");
        ensure!(panics(|| CooMat::new(s, full.clone(), short.clone(), d.clone())), "column list shorter than data accepted");
        ensure!(panics(|| CooMat::new(s, full.clone(), full.clone(), d[1..].to_vec())), "data shorter than row list accepted");
    }
    Ok(())
}
