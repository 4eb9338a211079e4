verus! {
// ------------------------------------------------------------- raw memory
// A raw pointer is an allocation and an offset; the memory is explicit.  as_ptr of a vector
// carries the vector's content at that moment.
pub struct RtPtr<T> { pub b: Ghost<int>, pub o: Ghost<int>, pub snap: Ghost<Option<Seq<T>>> }
impl<T> Copy for RtPtr<T> {}
impl<T> Clone for RtPtr<T> { #[verifier::external_body] fn clone(&self) -> (r: RtPtr<T>) ensures r == *self { unimplemented!() } }
pub struct RtMem { pub d: Ghost<Map<int, Seq<F64>>>, pub i: Ghost<Map<int, Seq<i32>>> }
pub trait RtCell: Sized { spec fn mem(m: RtMem) -> Map<int, Seq<Self>>; spec fn put(m: RtMem, x: Map<int, Seq<Self>>) -> RtMem; }
impl RtCell for F64 { open spec fn mem(m: RtMem) -> Map<int, Seq<F64>> { m.d@ } open spec fn put(m: RtMem, x: Map<int, Seq<F64>>) -> RtMem { RtMem { d: Ghost(x), ..m } } }
impl RtCell for i32 { open spec fn mem(m: RtMem) -> Map<int, Seq<i32>> { m.i@ } open spec fn put(m: RtMem, x: Map<int, Seq<i32>>) -> RtMem { RtMem { i: Ghost(x), ..m } } }
/// p points at n cells
pub open spec fn cells<T: RtCell>(p: RtPtr<T>, n: int, m: RtMem) -> bool { p.b@ != 0 && p.snap@ is None && T::mem(m).contains_key(p.b@) && 0 <= p.o@ && p.o@ + n <= T::mem(m)[p.b@].len() }
/// a buffer handed over by the caller: missing, or of n cells
pub open spec fn buffer<T: RtCell>(p: RtPtr<T>, n: int, m: RtMem) -> bool { p.b@ == 0 || cells(p, n, m) }
pub open spec fn cell<T: RtCell>(p: RtPtr<T>, k: int, m: RtMem) -> T { T::mem(m)[p.b@][p.o@ + k] }
pub open spec fn seg<T: RtCell>(p: RtPtr<T>, n: int, m: RtMem) -> Seq<T> { T::mem(m)[p.b@].subrange(p.o@, p.o@ + n) }
pub open spec fn source<T: RtCell>(p: RtPtr<T>, n: int, m: RtMem) -> bool { match p.snap@ { Some(s) => 0 <= p.o@ && p.o@ + n <= s.len(), None => cells(p, n, m) } }
pub open spec fn content<T: RtCell>(p: RtPtr<T>, k: int, m: RtMem) -> T { match p.snap@ { Some(s) => s[p.o@ + k], None => cell(p, k, m) } }
pub open spec fn over<T>(s: Seq<T>, o: int, n: int, f: spec_fn(int) -> T) -> Seq<T> { Seq::new(s.len(), |k: int| if o <= k < o + n { f(k - o) } else { s[k] }) }
impl<T: RtCell> RtPtr<T> {
    #[verifier::external_body] pub fn is_null(self) -> (r: bool) ensures r == (self.b@ == 0) { unimplemented!() }
    #[verifier::external_body] pub fn add(self, k: usize) -> (r: RtPtr<T>) ensures r.b == self.b, r.o@ == self.o@ + k, r.snap == self.snap { unimplemented!() }
}
pub open spec fn stored<T: RtCell>(p: RtPtr<T>, v: T, m: RtMem, m2: RtMem) -> bool { forall|q: RtPtr<T>, k: int| 0 <= q.o@ + k < T::mem(m)[q.b@].len() ==> #[trigger] cell(q, k, m2) == if q.b@ == p.b@ && q.o@ + k == p.o@ { v } else { cell(q, k, m) } }
pub open spec fn seg_at<T: RtCell>(p: RtPtr<T>, o: int, n: int, m: RtMem) -> Seq<T> { T::mem(m)[p.b@].subrange(p.o@ + o, p.o@ + o + n) }
#[verifier::external_body] pub fn rt_load<T: RtCell>(p: RtPtr<T>, m: &RtMem) -> (r: T) requires source(p, 1, *m) ensures r == content(p, 0, *m) { unimplemented!() }
#[verifier::external_body] pub fn rt_store<T: RtCell>(p: RtPtr<T>, v: T, m: &mut RtMem)
    requires cells(p, 1, *old(m)) ensures stored(p, v, *old(m), *final(m)), *final(m) == T::put(*old(m), T::mem(*old(m)).insert(p.b@, T::mem(*old(m))[p.b@].update(p.o@, v))) { unimplemented!() }
#[verifier::external_body] pub fn rt_slice<'a, T: RtCell>(p: RtPtr<T>, n: usize, m: &RtMem) -> (r: &'a [T]) requires source(p, n as int, *m) ensures r@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r@[k] == content(p, k, *m), p.snap@ is None ==> r@ == seg(p, n as int, *m) { unimplemented!() }
#[verifier::external_body] pub fn rt_copy<T: RtCell>(s: RtPtr<T>, p: RtPtr<T>, n: usize, m: &mut RtMem)
    requires n > 0 ==> source(s, n as int, *old(m)), n > 0 ==> cells(p, n as int, *old(m))
    ensures n == 0 ==> *final(m) == *old(m), n > 0 ==> *final(m) == T::put(*old(m), T::mem(*old(m)).insert(p.b@, over(T::mem(*old(m))[p.b@], p.o@, n as int, |k: int| content(s, k, *old(m))))) { unimplemented!() }
#[verifier::external_body] pub fn rt_as_ptr<T>(s: &[T]) -> (r: RtPtr<T>) ensures r.b@ != 0, r.o@ == 0, r.snap@ == Some(s@) { unimplemented!() }
#[verifier::external_body] pub fn rt_to_vec<T>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { unimplemented!() }
pub struct RtVoid { pub null: bool }
impl RtVoid { pub fn is_null(&self) -> (r: bool) ensures r == self.null { self.null } }
/// the user data is the problem
pub fn rt_user<'a>(u: RtVoid, p: &'a mut ProblemNlp) -> (r: &'a mut ProblemNlp) requires !u.null ensures *r == *old(p), *final(p) == *final(r) { p }
// ndarray's elementwise difference
pub struct Array1 { pub v: Vec<F64> }
impl Array1 { pub fn as_slice(&self) -> (r: Option<&[F64]>) ensures r is Some, r.unwrap()@ == self.v@ { Some(self.v.as_slice()) } }
impl<'a> vstd::std_specs::ops::SubSpecImpl<&'a ArrayView1> for &'a ArrayView1 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: &'a ArrayView1) -> bool { self.s@.len() == o.s@.len() } open spec fn sub_spec(self, o: &'a ArrayView1) -> Array1 { arbitrary() } }
impl<'a> core::ops::Sub<&'a ArrayView1> for &'a ArrayView1 { type Output = Array1;
    #[verifier::external_body] fn sub(self, o: &'a ArrayView1) -> (r: Array1) ensures r.v@.len() == self.s@.len(), forall|k: int| 0 <= k < r.v@.len() ==> (#[trigger] r.v@[k]).v@ == fv_sub(self.s@[k].v@, o.s@[k].v@) { unimplemented!() } }
} // verus!
