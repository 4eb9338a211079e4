verus! {
// ------------------------------------------------------------- text written to a file
// Text is modelled as the sequence of what was formatted into it: words of the vocabulary
// (by number; 0 is a word outside it), blanks, numbers, naturals and characters.
pub enum Atom { Ws, T(int), N(real), D(int), C(char), Bad }
/// the number printed for x with n digits after the point in scientific notation
pub uninterp spec fn rdec(x: real, n: int) -> real;
pub open spec fn rabs(x: real) -> real { if x >= 0real { x } else { -x } }
/// a is x to 11 significant digits
pub open spec fn close(a: real, x: real) -> bool { -rabs(x) <= 20000000000real * (a - x) && 20000000000real * (a - x) <= rabs(x) }
pub broadcast axiom fn rdec_close(x: real, n: int) ensures n >= 10 ==> close(#[trigger] rdec(x, n), x);
pub trait RtFmt { spec fn atom(&self, prec: int) -> Atom; }
impl RtFmt for usize { open spec fn atom(&self, prec: int) -> Atom { if prec == -1 { Atom::D(*self as int) } else { Atom::Bad } } }
impl RtFmt for char { open spec fn atom(&self, prec: int) -> Atom { if prec == -1 { Atom::C(*self) } else { Atom::Bad } } }
impl RtFmt for F64 { open spec fn atom(&self, prec: int) -> Atom {
    if !is_r(*self) || prec == -2 { Atom::Bad } else if prec >= 0 { Atom::N(rdec(rv(*self), prec)) } else { Atom::N(rv(*self)) } } }
impl<T: RtFmt> RtFmt for &T { open spec fn atom(&self, prec: int) -> Atom { (**self).atom(prec) } }
pub enum Atoms { Nil, Snoc(Box<Atoms>, Atom) }
pub open spec fn snoc(t: Atoms, a: Atom) -> Atoms { Atoms::Snoc(Box::new(t), a) }
pub struct RtText { pub atoms: Ghost<Atoms> }
pub fn rt_text() -> (r: RtText) ensures r.atoms@ == Atoms::Nil { RtText { atoms: Ghost(Atoms::Nil) } }
impl RtText {
    #[verifier::external_body] pub fn ws(self) -> (r: RtText) ensures r.atoms@ == snoc(self.atoms@, Atom::Ws) { unimplemented!() }
    #[verifier::external_body] pub fn txt(self, id: Ghost<int>) -> (r: RtText) ensures r.atoms@ == snoc(self.atoms@, Atom::T(id@)) { unimplemented!() }
    #[verifier::external_body] pub fn arg<T: RtFmt>(self, x: &T, p: Ghost<int>) -> (r: RtText) ensures r.atoms@ == snoc(self.atoms@, x.atom(p@)) { unimplemented!() }
    pub fn as_bytes(&self) -> (r: &RtText) ensures *r == *self { self }
}
// ------------------------------------------------------------- reading it as an LP file
pub enum Word { Kw(int), Plus, Minus, Num(real), Var(int), Label(int), Bad }
// words: 1 minimize 2 obj: 3 subject 4 to 5 = 6 <= 7 bounds 8 general 9 end 10 + 11 - 12 x_ 13 c_ 14 : 15 st
/// what has been read of the current word
pub enum Cur { E, A(Atom), B(Atom, Atom), C(Atom, Atom, Atom), Long }
pub open spec fn cur_push(c: Cur, a: Atom) -> Cur { match c { Cur::E => Cur::A(a), Cur::A(x) => Cur::B(x, a), Cur::B(x, y) => Cur::C(x, y, a), _ => Cur::Long } }
pub open spec fn word(c: Cur) -> Word { match c {
    Cur::A(Atom::T(t)) => if t == 10 { Word::Plus } else if t == 11 { Word::Minus } else { Word::Kw(t) },
    Cur::A(Atom::C(ch)) => if ch == '+' { Word::Plus } else if ch == '-' { Word::Minus } else { Word::Bad },
    Cur::A(Atom::N(r)) => Word::Num(r),
    Cur::B(Atom::T(t), Atom::D(n)) => if t == 12 { Word::Var(n) } else { Word::Bad },
    Cur::C(Atom::T(t), Atom::D(n), Atom::T(t2)) => if t == 13 && t2 == 14 { Word::Label(n) } else { Word::Bad },
    _ => Word::Bad,
} }
pub struct LpRow { pub name: int, pub terms: Seq<(int, real)>, pub rhs: real }
pub enum Sec { Start, Min, Terms, Subj, Rows, Row, Rhs, Bnds, Lo, LoLe, LoX, LoXLe, Gen, End, Bad }
pub struct LpSt {
    pub sec: Sec, pub in_obj: bool,
    pub name: int, pub terms: Seq<(int, real)>, pub sign: int, pub coef: Option<real>, // expression being read
    pub lo: real, pub var: int,                                                      // bound being read
    pub obj: Seq<(int, real)>, pub rows: Seq<LpRow>, pub bnds: Seq<(int, real, real)>, pub gen: Set<int>,
    pub cur: Cur,
}
pub open spec fn lp_init() -> LpSt { LpSt { sec: Sec::Start, in_obj: true, name: 0, terms: Seq::empty(), sign: 0, coef: None, lo: 0real, var: 0, obj: Seq::empty(), rows: Seq::empty(), bnds: Seq::empty(), gen: Set::empty(), cur: Cur::E } }
pub open spec fn lp_bad(s: LpSt) -> LpSt { LpSt { sec: Sec::Bad, ..s } }
pub open spec fn lp_expr_word(s: LpSt, w: Word) -> LpSt { match w {
    Word::Plus => if s.sign == 0 && s.coef is None { LpSt { sign: 1, ..s } } else { lp_bad(s) },
    Word::Minus => if s.sign == 0 && s.coef is None { LpSt { sign: -1, ..s } } else { lp_bad(s) },
    Word::Num(r) => if s.coef is None && (s.sign == 0 || r >= 0real) { LpSt { coef: Some(if s.sign == -1 { -r } else { r }), ..s } } else { lp_bad(s) },
    Word::Var(j) => { let c = match s.coef { Some(c) => c, None => if s.sign == -1 { -1real } else { 1real } };
        if s.sign != 0 || s.terms.len() == 0 || c < 0real { LpSt { terms: s.terms.push((j, c)), sign: 0, coef: None, ..s } } else { lp_bad(s) } },
    _ => lp_bad(s),
} }
pub open spec fn lp_step(s: LpSt, w: Word) -> LpSt { match s.sec {
    Sec::Start => if w == Word::Kw(1int) { LpSt { sec: Sec::Min, ..s } } else { lp_bad(s) },
    Sec::Min => if w == Word::Kw(2int) { LpSt { sec: Sec::Terms, ..s } } else { lp_bad(s) },
    Sec::Terms => if s.in_obj && s.sign == 0 && s.coef is None && w == Word::Kw(3int) { LpSt { sec: Sec::Subj, in_obj: false, obj: s.terms, terms: Seq::empty(), ..s } }
        else if s.in_obj && s.sign == 0 && s.coef is None && w == Word::Kw(15int) { LpSt { sec: Sec::Rows, in_obj: false, obj: s.terms, terms: Seq::empty(), ..s } }
        else if !s.in_obj && s.sign == 0 && s.coef is None && w == Word::Kw(5int) { LpSt { sec: Sec::Rhs, ..s } }
        else { lp_expr_word(s, w) },
    Sec::Subj => if w == Word::Kw(4int) { LpSt { sec: Sec::Rows, ..s } } else { lp_bad(s) },
    Sec::Rows => if w is Label { LpSt { sec: Sec::Terms, name: w->Label_0, ..s } } else if w == Word::Kw(7int) { LpSt { sec: Sec::Bnds, ..s } }
        else if w == Word::Kw(8int) { LpSt { sec: Sec::Gen, ..s } } else if w == Word::Kw(9int) { LpSt { sec: Sec::End, ..s } } else { lp_bad(s) },
    Sec::Rhs => if w is Num { LpSt { sec: Sec::Rows, rows: s.rows.push(LpRow { name: s.name, terms: s.terms, rhs: w->Num_0 }), terms: Seq::empty(), ..s } } else { lp_bad(s) },
    Sec::Bnds => if w is Num { LpSt { sec: Sec::Lo, lo: w->Num_0, ..s } } else if w == Word::Kw(8int) { LpSt { sec: Sec::Gen, ..s } } else if w == Word::Kw(9int) { LpSt { sec: Sec::End, ..s } } else { lp_bad(s) },
    Sec::Lo => if w == Word::Kw(6int) { LpSt { sec: Sec::LoLe, ..s } } else { lp_bad(s) },
    Sec::LoLe => if w is Var { LpSt { sec: Sec::LoX, var: w->Var_0, ..s } } else { lp_bad(s) },
    Sec::LoX => if w == Word::Kw(6int) { LpSt { sec: Sec::LoXLe, ..s } } else { lp_bad(s) },
    Sec::LoXLe => if w is Num { LpSt { sec: Sec::Bnds, bnds: s.bnds.push((s.var, s.lo, w->Num_0)), ..s } } else { lp_bad(s) },
    Sec::Gen => if w is Var { LpSt { gen: s.gen.insert(w->Var_0), ..s } } else if w == Word::Kw(9int) { LpSt { sec: Sec::End, ..s } } else { lp_bad(s) },
    _ => lp_bad(s),
} }
pub open spec fn lex(s: LpSt, a: Atom) -> LpSt { match a {
    Atom::Ws => if s.cur is E { s } else { LpSt { cur: Cur::E, ..lp_step(s, word(s.cur)) } },
    _ => LpSt { cur: cur_push(s.cur, a), ..s },
} }
pub open spec fn lex_all(s: LpSt, t: Atoms) -> LpSt decreases t { match t { Atoms::Nil => s, Atoms::Snoc(x, a) => lex(lex_all(s, *x), a) } }
pub broadcast proof fn lex_snoc(s: LpSt, t: Atoms, a: Atom) ensures #[trigger] lex_all(s, snoc(t, a)) == lex(lex_all(s, t), a) {}
pub broadcast proof fn lex_nil(s: LpSt) ensures #[trigger] lex_all(s, Atoms::Nil) == s {}
// ------------------------------------------------------------- files
/// the content is a text that reads as s
pub uninterp spec fn lp_text(c: Content, s: LpSt) -> bool;
pub open spec fn wrote(w: RtWorld, name: Seq<char>, s: LpSt) -> bool { w.fs@.contains_key(name) && lp_text(w.fs@[name], s) }
pub struct BufWriter { pub name: Ghost<Seq<char>>, pub st: Ghost<LpSt> }
impl BufWriter {
    #[verifier::external_body] pub fn new(f: File) -> (r: BufWriter) ensures r.name@ == f.name@, r.st@ == lp_init() { unimplemented!() }
    // a write is shorter than the buffer, so write takes all of it
    #[verifier::external_body] pub fn write(&mut self, t: &RtText) -> (r: Result<usize, IoError>) ensures final(self).name@ == old(self).name@, match r { Ok(_) => final(self).st@ == lex_all(old(self).st@, t.atoms@), Err(e) => from_os(e) } { unimplemented!() }
    #[verifier::external_body] pub fn write_all(&mut self, t: &RtText) -> (r: Result<(), IoError>) ensures final(self).name@ == old(self).name@, match r { Ok(_) => final(self).st@ == lex_all(old(self).st@, t.atoms@), Err(e) => from_os(e) } { unimplemented!() }
    #[verifier::external_body] pub fn rt_write_fmt(&mut self, t: &RtText) -> (r: Result<(), IoError>) ensures final(self).name@ == old(self).name@, match r { Ok(_) => final(self).st@ == lex_all(old(self).st@, t.atoms@), Err(e) => from_os(e) } { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self, w: &mut RtWorld) -> (r: Result<(), IoError>) ensures only_file(*old(w), *final(w), old(self).name@), final(self).name@ == old(self).name@, final(self).st@ == old(self).st@, match r { Ok(_) => wrote(*final(w), old(self).name@, old(self).st@), Err(e) => from_os(e) } { unimplemented!() }
}
// ------------------------------------------------------------- what the file has to say
/// sum, in order, of the entries of column col
pub open spec fn rsum(s: Seq<(usize, F64)>, n: int, col: int) -> Option<FV> decreases n {
    if n <= 0 { None } else if s[n - 1].0 == col { match rsum(s, n - 1, col) { None => Some(s[n - 1].1.v@), Some(x) => Some(fv_add(x, s[n - 1].1.v@)) } } else { rsum(s, n - 1, col) }
}
pub open spec fn row_of(a: CooMat, i: int) -> Seq<(usize, F64)> { coo_row(a.row_inds@, a.col_inds@, a.data@, a.row_inds@.len() as int, i) }
/// coefficient of variable j in row i, 0 where there is no entry
pub open spec fn coef(a: CooMat, i: int, j: int) -> real { match rsum(row_of(a, i), row_of(a, i).len() as int, j) { Some(v) => v->R_0, None => 0real } }
pub open spec fn distinct_vars(t: Seq<(int, real)>) -> bool { forall|k1: int, k2: int| 0 <= k1 < k2 < t.len() ==> (#[trigger] t[k1]).0 != (#[trigger] t[k2]).0 }
pub open spec fn has_var(t: Seq<(int, real)>, j: int) -> bool { exists|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0 == j }
/// the terms are those of the linear function with coefficients g over n variables
pub open spec fn terms_for(t: Seq<(int, real)>, n: int, g: spec_fn(int) -> real) -> bool {
    &&& distinct_vars(t)
    &&& forall|k: int| 0 <= k < t.len() ==> 0 <= (#[trigger] t[k]).0 < n && g(t[k].0) != 0real && close(t[k].1, g(t[k].0))
    &&& forall|j: int| 0 <= j < n && g(j) != 0real ==> #[trigger] has_var(t, j)
}
pub open spec fn row_for(r: LpRow, p: ProblemMilp, i: int) -> bool { r.name == i && close(r.rhs, rv(p.base.b@[i])) && terms_for(r.terms, p.c@.len() as int, |j: int| coef(p.base.a, i, j)) }
pub open spec fn bnd_for(x: (int, real, real), p: ProblemMilp, i: int) -> bool { x.0 == i && close(x.1, rv(p.base.l@[i])) && close(x.2, rv(p.base.u@[i])) }
pub open spec fn bnds_upto(s: Seq<(int, real, real)>, p: ProblemMilp, n: int) -> bool { s.len() == n && forall|i: int| 0 <= i < n ==> bnd_for(#[trigger] s[i], p, i) }
pub open spec fn rows_upto(s: Seq<LpRow>, p: ProblemMilp, n: int) -> bool { s.len() == n && forall|i: int| 0 <= i < n ==> row_for(#[trigger] s[i], p, i) }
pub open spec fn gen_upto(s: Set<int>, p: ProblemMilp, n: int) -> bool { forall|i: int| #[trigger] s.contains(i) <==> 0 <= i < n && p.base.p@[i] }
pub open spec fn denotes(s: LpSt, p: ProblemMilp) -> bool {
    &&& s.sec == Sec::End && s.cur is E
    &&& terms_for(s.obj, p.c@.len() as int, |j: int| rv(p.c@[j]))
    &&& rows_upto(s.rows, p, p.base.b@.len() as int)
    &&& bnds_upto(s.bnds, p, p.c@.len() as int)
    &&& gen_upto(s.gen, p, p.c@.len() as int)
}
pub open spec fn all_r(s: Seq<F64>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_r(#[trigger] s[i]) }
pub open spec fn lp_data(p: ProblemMilp) -> bool {
    &&& p.wf() && p.base.a.inb() && p.base.a.inb_col() && p.base.a.shape.0 < usize::MAX
    &&& all_r(p.c@) && all_r(p.base.a.data@) && all_r(p.base.b@) && all_r(p.base.l@) && all_r(p.base.u@)
}
// ------------------------------------------------------------- the loops
/// reading an expression, between two terms
pub open spec fn at_term(s: LpSt) -> bool { s.sec == Sec::Terms && s.sign == 0 && s.coef is None && s.cur is E }
pub open spec fn same_but_terms(s: LpSt, o: LpSt) -> bool { s == LpSt { terms: s.terms, ..o } }
pub open spec fn obj_upto(t: Seq<(int, real)>, c: Seq<F64>, n: int) -> bool {
    &&& distinct_vars(t)
    &&& forall|k: int| 0 <= k < t.len() ==> 0 <= (#[trigger] t[k]).0 < n && rv(c[t[k].0]) != 0real && close(t[k].1, rv(c[t[k].0]))
    &&& forall|j: int| 0 <= j < n && rv(c[j]) != 0real ==> #[trigger] has_var(t, j)
}
/// one more term
pub open spec fn adds(t: Seq<(int, real)>, t2: Seq<(int, real)>, j: int, x: real) -> bool {
    if x == 0real { t2 == t } else { exists|y: real| t2 == #[trigger] t.push((j, y)) && close(y, x) }
}
pub proof fn lem_has_push(t: Seq<(int, real)>, x: (int, real), j: int) ensures has_var(t.push(x), j) <==> has_var(t, j) || x.0 == j
{
    let t2 = t.push(x);
    if has_var(t, j) { let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0 == j; assert(t2[k].0 == j); }
    if x.0 == j { assert(t2[t.len() as int].0 == j); }
    if has_var(t2, j) { let k = choose|k: int| 0 <= k < t2.len() && (#[trigger] t2[k]).0 == j; if k < t.len() { assert(t[k].0 == j); } }
}
pub proof fn lem_obj_step(t: Seq<(int, real)>, t2: Seq<(int, real)>, c: Seq<F64>, n: int)
    requires obj_upto(t, c, n), 0 <= n < c.len(), adds(t, t2, n, rv(c[n]))
    ensures obj_upto(t2, c, n + 1)
{
    if rv(c[n]) != 0real {
        let y = choose|y: real| t2 == #[trigger] t.push((n, y)) && close(y, rv(c[n]));
        assert forall|j: int| 0 <= j < n + 1 && rv(c[j]) != 0real implies #[trigger] has_var(t2, j) by { lem_has_push(t, (n, y), j); if j < n { assert(has_var(t, j)); } }
        assert forall|k: int| 0 <= k < t2.len() implies 0 <= (#[trigger] t2[k]).0 < n + 1 && rv(c[t2[k].0]) != 0real && close(t2[k].1, rv(c[t2[k].0])) by { if k < t.len() { assert(t2[k] == t[k]); } }
        assert forall|k1: int, k2: int| 0 <= k1 < k2 < t2.len() implies (#[trigger] t2[k1]).0 != (#[trigger] t2[k2]).0 by { assert(t2[k1] == t[k1]); if k2 < t.len() { assert(t2[k2] == t[k2]); } }
    } else {
        assert forall|k: int| 0 <= k < t2.len() implies 0 <= (#[trigger] t2[k]).0 < n + 1 && rv(c[t2[k].0]) != 0real && close(t2[k].1, rv(c[t2[k].0])) by { assert(t[k].0 < n); }
        assert forall|j: int| 0 <= j < n + 1 && rv(c[j]) != 0real implies #[trigger] has_var(t2, j) by { assert(has_var(t, j)); }
    }
}
/// the terms of positions lo..n of a row without duplicates
pub open spec fn csr_upto(t: Seq<(int, real)>, c: Seq<usize>, d: Seq<F64>, lo: int, n: int) -> bool {
    &&& distinct_vars(t)
    &&& forall|k: int| 0 <= k < t.len() ==> #[trigger] from_pos(t[k], c, d, lo, n)
    &&& forall|q: int| lo <= q < n && rv(d[q]) != 0real ==> has_var(t, #[trigger] c[q] as int)
}
pub open spec fn from_pos(x: (int, real), c: Seq<usize>, d: Seq<F64>, lo: int, n: int) -> bool { exists|q: int| lo <= q < n && #[trigger] c[q] == x.0 && rv(d[q]) != 0real && close(x.1, rv(d[q])) }
pub open spec fn nodup(c: Seq<usize>, lo: int, hi: int) -> bool { forall|p: int, q: int| lo <= p < q < hi ==> #[trigger] c[p] != #[trigger] c[q] }
pub proof fn lem_csr_step(t: Seq<(int, real)>, t2: Seq<(int, real)>, c: Seq<usize>, d: Seq<F64>, lo: int, n: int, hi: int)
    requires csr_upto(t, c, d, lo, n), 0 <= lo <= n < hi <= c.len(), hi <= d.len(), nodup(c, lo, hi), adds(t, t2, c[n] as int, rv(d[n]))
    ensures csr_upto(t2, c, d, lo, n + 1)
{
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] from_pos(t[k], c, d, lo, n + 1) by {
        assert(from_pos(t[k], c, d, lo, n));
        let q = choose|q: int| lo <= q < n && #[trigger] c[q] == t[k].0 && rv(d[q]) != 0real && close(t[k].1, rv(d[q])); assert(c[q] == t[k].0);
    }
    if rv(d[n]) != 0real {
        let y = choose|y: real| t2 == #[trigger] t.push((c[n] as int, y)) && close(y, rv(d[n]));
        assert forall|k: int| 0 <= k < t2.len() implies #[trigger] from_pos(t2[k], c, d, lo, n + 1) by { if k < t.len() { assert(t2[k] == t[k]); } else { assert(c[n] == t2[k].0); } }
        assert forall|q: int| lo <= q < n + 1 && rv(d[q]) != 0real implies has_var(t2, #[trigger] c[q] as int) by { lem_has_push(t, (c[n] as int, y), c[q] as int); }
        assert forall|k1: int, k2: int| 0 <= k1 < k2 < t2.len() implies (#[trigger] t2[k1]).0 != (#[trigger] t2[k2]).0 by {
            assert(t2[k1] == t[k1]); assert(from_pos(t[k1], c, d, lo, n));
            if k2 < t.len() { assert(t2[k2] == t[k2]); } else {
                let q = choose|q: int| lo <= q < n && #[trigger] c[q] == t[k1].0 && rv(d[q]) != 0real && close(t[k1].1, rv(d[q])); assert(c[q] != c[n]);
            }
        }
    }
}
pub proof fn lem_rsum(c: Seq<usize>, d: Seq<F64>, lo: int, hi: int, n: int, col: int)
    requires 0 <= lo <= hi <= c.len(), hi <= d.len(), 0 <= n <= hi - lo
    ensures rsum(csr_row(c, d, lo, hi), n, col) == csum(c, d, lo, lo + n, col) decreases n
{ if n > 0 { lem_rsum(c, d, lo, hi, n - 1, col); } }
pub proof fn lem_uniq_nodup(o: CsrMat, m: CsrMat, i: int)
    requires o.wf(), summed(o, m), 0 <= i < o.shape.0
    ensures nodup(m.indices@, m.indptr@[i] as int, m.indptr@[i + 1] as int)
{
    let (lo, hi) = (m.indptr@[i] as int, m.indptr@[i + 1] as int);
    assert(o.indptr@[i] <= o.indptr@[i + 1] && o.indptr@[i + 1] <= o.indptr@[o.shape.0 as int]);
    assert(m.indptr@[i] <= m.indptr@[i + 1] && m.indptr@[i + 1] <= m.indptr@[m.shape.0 as int]);
    lem_uniq(o.indices@, o.indptr@[i] as int, o.indptr@[i + 1] as int);
    let s = m.indices@.subrange(lo, hi);
    assert(s == uniq(o.indices@, o.indptr@[i] as int, o.indptr@[i + 1] as int));
    assert forall|p: int, q: int| lo <= p < q < hi implies #[trigger] m.indices@[p] != #[trigger] m.indices@[q] by { assert(s[p - lo] != s[q - lo]); }
}
/// the coefficient of a variable in a row of the matrix made by to_csr and sum_duplicates
pub proof fn lem_coef(p: ProblemMilp, o: CsrMat, m: CsrMat, i: int, j: int)
    requires p.wf(), o.wf(), summed(o, m), 0 <= i < o.shape.0, o.shape == p.base.a.shape, o.row(i) == row_of(p.base.a, i), o.indices@.len() == p.base.a.row_inds@.len()
    ensures coef(p.base.a, i, j) == (match m.entry(i, j) { Some(v) => v->R_0, None => 0real })
{
    assert(m.entry(i, j) == o.entry(i, j));
    let (lo, hi) = (o.indptr@[i] as int, o.indptr@[i + 1] as int);
    assert(0 <= lo <= hi && hi <= o.indptr@[o.shape.0 as int]);
    lem_rsum(o.indices@, o.data@, lo, hi, hi - lo, j);
}
pub proof fn lem_row_terms(t: Seq<(int, real)>, p: ProblemMilp, o: CsrMat, m: CsrMat, i: int)
    requires p.wf(), o.wf(), summed(o, m), 0 <= i < o.shape.0, o.shape == p.base.a.shape, o.row(i) == row_of(p.base.a, i), o.indices@.len() == p.base.a.row_inds@.len(),
        csr_upto(t, m.indices@, m.data@, m.indptr@[i] as int, m.indptr@[i + 1] as int)
    ensures terms_for(t, p.c@.len() as int, |j: int| coef(p.base.a, i, j))
{
    let (lo, hi) = (m.indptr@[i] as int, m.indptr@[i + 1] as int);
    let (c, d) = (m.indices@, m.data@);
    let g = |j: int| coef(p.base.a, i, j);
    assert(0 <= lo <= hi && hi <= m.indptr@[m.shape.0 as int]);
    lem_uniq_nodup(o, m, i);
    assert forall|q: int| lo <= q < hi implies g(#[trigger] c[q] as int) == d[q].v@->R_0 by {
        lem_coef(p, o, m, i, c[q] as int);
        assert forall|k: int| lo <= k < hi && c[k] == c[q] implies k == q by { if k < q { assert(c[k] != c[q]); } else if q < k { assert(c[q] != c[k]); } }
        lem_csum_single(c, d, lo, hi, c[q] as int, q);
    }
    assert forall|k: int| 0 <= k < t.len() implies 0 <= (#[trigger] t[k]).0 < p.c@.len() && g(t[k].0) != 0real && close(t[k].1, g(t[k].0)) by {
        assert(from_pos(t[k], c, d, lo, hi));
        let q = choose|q: int| lo <= q < hi && #[trigger] c[q] == t[k].0 && rv(d[q]) != 0real && close(t[k].1, rv(d[q]));
        assert(c[q] < m.shape.1);
    }
    assert forall|j: int| 0 <= j < p.c@.len() && g(j) != 0real implies #[trigger] has_var(t, j) by {
        lem_coef(p, o, m, i, j);
        lem_csum_some(c, d, lo, hi, j);
        let q = choose|q: int| lo <= q < hi && #[trigger] c[q] == j;
        assert(has_var(t, c[q] as int));
    }
}
pub open spec fn rsum_r(s: Seq<(usize, F64)>, n: int, col: int) -> bool { match rsum(s, n, col) { Some(v) => v is R, None => true } }
pub proof fn lem_rsum_r(s: Seq<(usize, F64)>, n: int, col: int) requires 0 <= n <= s.len(), forall|k: int| 0 <= k < s.len() ==> is_r((#[trigger] s[k]).1) ensures rsum_r(s, n, col) decreases n { if n > 0 { lem_rsum_r(s, n - 1, col); assert(is_r(s[n - 1].1)); } }
pub proof fn lem_coo_row_r(r: Seq<usize>, c: Seq<usize>, d: Seq<F64>, n: int, i: int) requires all_r(d), 0 <= n <= d.len() ensures forall|k: int| 0 <= k < coo_row(r, c, d, n, i).len() ==> is_r((#[trigger] coo_row(r, c, d, n, i)[k]).1) decreases n
{
    if n > 0 {
        lem_coo_row_r(r, c, d, n - 1, i);
        let s = coo_row(r, c, d, n - 1, i);
        assert(is_r(d[n - 1]));
        assert forall|k: int| 0 <= k < coo_row(r, c, d, n, i).len() implies is_r((#[trigger] coo_row(r, c, d, n, i)[k]).1) by { if k < s.len() { assert(is_r(s[k].1)); } }
    }
}
pub proof fn lem_entry_r(p: ProblemMilp, o: CsrMat, m: CsrMat, i: int, q: int)
    requires p.wf(), all_r(p.base.a.data@), o.wf(), summed(o, m), 0 <= i < o.shape.0, o.shape == p.base.a.shape, o.row(i) == row_of(p.base.a, i), m.indptr@[i] <= q < m.indptr@[i + 1]
    ensures is_r(m.data@[q])
{
    let (lo, hi) = (m.indptr@[i] as int, m.indptr@[i + 1] as int);
    let (c, d) = (m.indices@, m.data@);
    assert(0 <= lo <= hi && hi <= m.indptr@[m.shape.0 as int]);
    lem_uniq_nodup(o, m, i);
    assert forall|k: int| lo <= k < hi && c[k] == c[q] implies k == q by { if k < q { assert(c[k] != c[q]); } else if q < k { assert(c[q] != c[k]); } }
    lem_csum_single(c, d, lo, hi, c[q] as int, q);
    let (l2, h2) = (o.indptr@[i] as int, o.indptr@[i + 1] as int);
    assert(0 <= l2 <= h2 && h2 <= o.indptr@[o.shape.0 as int]);
    assert(m.entry(i, c[q] as int) == o.entry(i, c[q] as int));
    lem_rsum(o.indices@, o.data@, l2, h2, h2 - l2, c[q] as int);
    lem_coo_row_r(p.base.a.row_inds@, p.base.a.col_inds@, p.base.a.data@, p.base.a.row_inds@.len() as int, i);
    lem_rsum_r(row_of(p.base.a, i), h2 - l2, c[q] as int);
}
} // verus!
