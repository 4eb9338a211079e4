#![feature(allocator_api)]
#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unreachable_code, non_snake_case, unused_assignments)]
use vstd::prelude::*;
use std::rc::Rc;
use std::collections::{HashMap, HashSet, VecDeque};
use std::ops::{Add, Sub, Mul, Div, Neg};
verus! {
// ---------------------------------------------------------------- numbers
// f64 is modelled as a real number or a value that is not a real number
// (NaN, +inf, -inf).  Arithmetic on real numbers is exact (no rounding, overflow,
// underflow or signed zero); infinities and NaN follow IEEE 754.  (Trusted base: "machine arithmetic treated as
// mathematical".)
pub mod num { use vstd::prelude::*;
pub enum FV { R(real), NaN, PInf, NInf }
pub open spec fn fv_inf(neg: bool) -> FV { if neg { FV::NInf } else { FV::PInf } }
pub open spec fn fv_neg_sign(a: FV) -> bool { match a { FV::R(x) => x < 0real, FV::NInf => true, _ => false } }
pub open spec fn fv_zero(a: FV) -> bool { a == FV::R(0real) }
pub open spec fn fv_mul(a: FV, b: FV) -> FV { if a is R && b is R { FV::R(a->R_0 * b->R_0) } else if a is NaN || b is NaN { FV::NaN }
    else if fv_zero(a) || fv_zero(b) { FV::NaN } else { fv_inf(fv_neg_sign(a) != fv_neg_sign(b)) } }
// the order of a product's factors does not matter
pub broadcast proof fn fv_mul_comm(a: FV, b: FV) ensures #[trigger] fv_mul(a, b) == fv_mul(b, a) {}
}
pub use num::*;
broadcast use num::fv_mul_comm;
pub struct F64 { pub v: Ghost<FV> }
impl Copy for F64 {}
impl Clone for F64 { #[verifier::external_body] fn clone(&self) -> (r: F64) ensures r == *self { unimplemented!() } }
pub uninterp spec fn div0_neg(a: FV, b: FV) -> bool;
pub uninterp spec fn rsin(x: real) -> real;
pub uninterp spec fn rcos(x: real) -> real;
pub open spec fn fv_sin(a: FV) -> FV { match a { FV::R(x) => FV::R(rsin(x)), _ => FV::NaN } }
pub open spec fn fv_cos(a: FV) -> FV { match a { FV::R(x) => FV::R(rcos(x)), _ => FV::NaN } }
pub open spec fn rv(a: F64) -> real { a.v@->R_0 }
pub open spec fn is_r(a: F64) -> bool { a.v@ is R }
pub open spec fn fv_add(a: FV, b: FV) -> FV { match (a, b) { (FV::R(x), FV::R(y)) => FV::R(x + y), (FV::NaN, _) => FV::NaN, (_, FV::NaN) => FV::NaN,
    (FV::R(x), _) => b, (_, FV::R(y)) => a, _ => if a == b { a } else { FV::NaN } } }
pub open spec fn fv_neg(a: FV) -> FV { match a { FV::R(x) => FV::R(-x), FV::NaN => FV::NaN, FV::PInf => FV::NInf, FV::NInf => FV::PInf } }
pub open spec fn fv_sub(a: FV, b: FV) -> FV { fv_add(a, fv_neg(b)) }
// x/0 is +inf or -inf by the sign of the zero, which is not modelled
pub open spec fn fv_div(a: FV, b: FV) -> FV { match (a, b) { (FV::NaN, _) => FV::NaN, (_, FV::NaN) => FV::NaN,
    (FV::R(x), FV::R(y)) => if y != 0real { FV::R(x / y) } else if x == 0real { FV::NaN } else { fv_inf(div0_neg(a, b)) },
    (_, FV::R(y)) => if y != 0real { fv_inf(fv_neg_sign(a) != fv_neg_sign(b)) } else { fv_inf(div0_neg(a, b)) },
    (FV::R(x), _) => FV::R(0real), _ => FV::NaN } }
pub open spec fn fv_lt(a: FV, b: FV) -> bool { match (a, b) {
    (FV::R(x), FV::R(y)) => x < y, (FV::NaN, _) => false, (_, FV::NaN) => false,
    (FV::NInf, FV::NInf) => false, (FV::NInf, _) => true, (_, FV::PInf) => !(a is PInf), _ => false } }
pub open spec fn fv_eq(a: FV, b: FV) -> bool { !(a is NaN) && a == b }
pub open spec fn fv_abs(a: FV) -> FV { match a { FV::R(x) => if x >= 0real { a } else { FV::R(-x) }, FV::NInf => FV::PInf, _ => a } }
pub open spec fn fv_max(a: FV, b: FV) -> FV { if a is NaN { b } else if b is NaN { a } else if fv_lt(a, b) { b } else { a } }
pub open spec fn fv_min(a: FV, b: FV) -> FV { if a is NaN { b } else if b is NaN { a } else if fv_lt(b, a) { b } else { a } }
pub open spec fn f(v: FV) -> F64 { F64 { v: Ghost(v) } }
impl F64 {
    #[verifier::external_body] pub fn lit(x: Ghost<real>) -> (r: F64) ensures r.v@ == FV::R(x@) { unimplemented!() }
    #[verifier::external_body] pub fn nan() -> (r: F64) ensures r.v@ == FV::NaN { unimplemented!() }
    #[verifier::external_body] pub fn pinf() -> (r: F64) ensures r.v@ == FV::PInf { unimplemented!() }
    #[verifier::external_body] pub fn ninf() -> (r: F64) ensures r.v@ == FV::NInf { unimplemented!() }
    // the largest and smallest finite numbers, the spacing at 1 and the smallest positive normal
    #[verifier::external_body] pub fn max_value() -> (r: F64) ensures r.v@ is R && rv(r) > 1000000000real { unimplemented!() }
    #[verifier::external_body] pub fn min_value() -> (r: F64) ensures r.v@ is R && rv(r) < -1000000000real { unimplemented!() }
    #[verifier::external_body] pub fn epsilon() -> (r: F64) ensures r.v@ is R && 0real < rv(r) && rv(r) < 1real / 1000000000real { unimplemented!() }
    #[verifier::external_body] pub fn min_positive() -> (r: F64) ensures r.v@ is R && 0real < rv(r) && rv(r) < 1real / 1000000000real { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: F64) ensures r.v@ == FV::R(0real) { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: F64) ensures r.v@ == FV::R(1real) { unimplemented!() }
    #[verifier::external_body] pub fn sin(self) -> (r: F64) ensures r.v@ == fv_sin(self.v@) { unimplemented!() }
    #[verifier::external_body] pub fn cos(self) -> (r: F64) ensures r.v@ == fv_cos(self.v@) { unimplemented!() }
    #[verifier::external_body] pub fn to_f64(&self) -> (r: Option<F64>) ensures r == Some(*self) { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (r: F64) ensures r.v@ == fv_abs(self.v@) { unimplemented!() }
    #[verifier::external_body] pub fn max(self, o: F64) -> (r: F64) ensures r.v@ == fv_max(self.v@, o.v@) { unimplemented!() }
    #[verifier::external_body] pub fn min(self, o: F64) -> (r: F64) ensures r.v@ == fv_min(self.v@, o.v@) { unimplemented!() }
    #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures r == (self.v@ is NaN) { unimplemented!() }
    #[verifier::external_body] pub fn is_finite(self) -> (r: bool) ensures r == (self.v@ is R) { unimplemented!() }
    #[verifier::external_body] pub fn is_infinite(self) -> (r: bool) ensures r == (self.v@ is PInf || self.v@ is NInf) { unimplemented!() }
    #[verifier::external_body] pub fn recip(self) -> (r: F64) ensures r.v@ == fv_div(FV::R(1real), self.v@) { unimplemented!() }
    #[verifier::external_body] pub fn mul_add(self, a: F64, b: F64) -> (r: F64) ensures r.v@ == fv_add(fv_mul(self.v@, a.v@), b.v@) { unimplemented!() }
    #[verifier::external_body] pub fn floor(self) -> (r: F64) ensures !(self.v@ is R) ==> r.v@ == self.v@, self.v@ is R ==> r.v@ is R && rv(r) <= rv(self) { unimplemented!() }
    #[verifier::external_body] pub fn ceil(self) -> (r: F64) ensures !(self.v@ is R) ==> r.v@ == self.v@, self.v@ is R ==> r.v@ is R && rv(r) >= rv(self) { unimplemented!() }
    #[verifier::external_body] pub fn round(self) -> (r: F64) ensures !(self.v@ is R) ==> r.v@ == self.v@, self.v@ is R ==> r.v@ is R { unimplemented!() }
    #[verifier::external_body] pub fn trunc(self) -> (r: F64) ensures !(self.v@ is R) ==> r.v@ == self.v@, self.v@ is R ==> r.v@ is R { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<F64> for F64 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: F64) -> bool { true } open spec fn add_spec(self, rhs: F64) -> F64 { f(fv_add(self.v@, rhs.v@)) } }
impl Add<F64> for F64 { type Output = F64; #[verifier::external_body] fn add(self, r: F64) -> F64 { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<F64> for F64 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: F64) -> bool { true } open spec fn sub_spec(self, rhs: F64) -> F64 { f(fv_sub(self.v@, rhs.v@)) } }
impl Sub<F64> for F64 { type Output = F64; #[verifier::external_body] fn sub(self, r: F64) -> F64 { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<F64> for F64 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: F64) -> bool { true } open spec fn mul_spec(self, rhs: F64) -> F64 { f(fv_mul(self.v@, rhs.v@)) } }
impl Mul<F64> for F64 { type Output = F64; #[verifier::external_body] fn mul(self, r: F64) -> F64 { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<F64> for F64 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: F64) -> bool { true } open spec fn div_spec(self, rhs: F64) -> F64 { f(fv_div(self.v@, rhs.v@)) } }
impl Div<F64> for F64 { type Output = F64; #[verifier::external_body] fn div(self, r: F64) -> F64 { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<&F64> for F64 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: &F64) -> bool { true } open spec fn add_spec(self, rhs: &F64) -> F64 { f(fv_add(self.v@, rhs.v@)) } }
impl Add<&F64> for F64 { type Output = F64; #[verifier::external_body] fn add(self, r: &F64) -> F64 { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<F64> for &F64 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: F64) -> bool { true } open spec fn add_spec(self, rhs: F64) -> F64 { f(fv_add(self.v@, rhs.v@)) } }
impl Add<F64> for &F64 { type Output = F64; #[verifier::external_body] fn add(self, r: F64) -> F64 { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<&F64> for &F64 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: &F64) -> bool { true } open spec fn add_spec(self, rhs: &F64) -> F64 { f(fv_add(self.v@, rhs.v@)) } }
impl Add<&F64> for &F64 { type Output = F64; #[verifier::external_body] fn add(self, r: &F64) -> F64 { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<&F64> for F64 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: &F64) -> bool { true } open spec fn sub_spec(self, rhs: &F64) -> F64 { f(fv_sub(self.v@, rhs.v@)) } }
impl Sub<&F64> for F64 { type Output = F64; #[verifier::external_body] fn sub(self, r: &F64) -> F64 { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<F64> for &F64 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: F64) -> bool { true } open spec fn sub_spec(self, rhs: F64) -> F64 { f(fv_sub(self.v@, rhs.v@)) } }
impl Sub<F64> for &F64 { type Output = F64; #[verifier::external_body] fn sub(self, r: F64) -> F64 { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<&F64> for &F64 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: &F64) -> bool { true } open spec fn sub_spec(self, rhs: &F64) -> F64 { f(fv_sub(self.v@, rhs.v@)) } }
impl Sub<&F64> for &F64 { type Output = F64; #[verifier::external_body] fn sub(self, r: &F64) -> F64 { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<&F64> for F64 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: &F64) -> bool { true } open spec fn mul_spec(self, rhs: &F64) -> F64 { f(fv_mul(self.v@, rhs.v@)) } }
impl Mul<&F64> for F64 { type Output = F64; #[verifier::external_body] fn mul(self, r: &F64) -> F64 { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<F64> for &F64 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: F64) -> bool { true } open spec fn mul_spec(self, rhs: F64) -> F64 { f(fv_mul(self.v@, rhs.v@)) } }
impl Mul<F64> for &F64 { type Output = F64; #[verifier::external_body] fn mul(self, r: F64) -> F64 { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<&F64> for &F64 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: &F64) -> bool { true } open spec fn mul_spec(self, rhs: &F64) -> F64 { f(fv_mul(self.v@, rhs.v@)) } }
impl Mul<&F64> for &F64 { type Output = F64; #[verifier::external_body] fn mul(self, r: &F64) -> F64 { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<&F64> for F64 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: &F64) -> bool { true } open spec fn div_spec(self, rhs: &F64) -> F64 { f(fv_div(self.v@, rhs.v@)) } }
impl Div<&F64> for F64 { type Output = F64; #[verifier::external_body] fn div(self, r: &F64) -> F64 { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<F64> for &F64 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: F64) -> bool { true } open spec fn div_spec(self, rhs: F64) -> F64 { f(fv_div(self.v@, rhs.v@)) } }
impl Div<F64> for &F64 { type Output = F64; #[verifier::external_body] fn div(self, r: F64) -> F64 { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<&F64> for &F64 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: &F64) -> bool { true } open spec fn div_spec(self, rhs: &F64) -> F64 { f(fv_div(self.v@, rhs.v@)) } }
impl Div<&F64> for &F64 { type Output = F64; #[verifier::external_body] fn div(self, r: &F64) -> F64 { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for F64 { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> F64 { f(fv_neg(self.v@)) } }
impl Neg for F64 { type Output = F64; #[verifier::external_body] fn neg(self) -> F64 { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for F64 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &F64) -> bool { fv_eq(self.v@, o.v@) } }
impl PartialEq for F64 { #[verifier::external_body] fn eq(&self, o: &F64) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for F64 { open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &F64) -> Option<core::cmp::Ordering> {
        if fv_lt(self.v@, o.v@) { Some(core::cmp::Ordering::Less) } else if fv_lt(o.v@, self.v@) { Some(core::cmp::Ordering::Greater) }
        else if fv_eq(self.v@, o.v@) { Some(core::cmp::Ordering::Equal) } else { None } } }
impl PartialOrd for F64 { #[verifier::external_body] fn partial_cmp(&self, o: &F64) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
// AsRef::as_ref on Rc<T> and String
// text functions whose result is left open
pub assume_specification [str::trim] (s: &str) -> (r: &str);
pub assume_specification [str::trim_start] (s: &str) -> (r: &str);
pub assume_specification [str::trim_end] (s: &str) -> (r: &str);
pub assume_specification [str::to_lowercase] (s: &str) -> (r: String);
pub assume_specification [str::to_uppercase] (s: &str) -> (r: String);
pub assume_specification [<std::string::String as std::convert::AsRef<str>>::as_ref] (s: &std::string::String) -> (r: &str) ensures r@ == s@;
#[verifier::external_body] pub fn rt_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub trait RtAsRef<T: ?Sized> { spec fn as_ref_spec(&self) -> &T; fn rt_as_ref(&self) -> (r: &T) ensures r == self.as_ref_spec(); }
impl<T> RtAsRef<T> for Rc<T> { open spec fn as_ref_spec(&self) -> &T { &**self } fn rt_as_ref(&self) -> (r: &T) { &**self } }
pub uninterp spec fn string_str(s: &String) -> &str;
impl RtAsRef<str> for String { open spec fn as_ref_spec(&self) -> &str { string_str(self) } #[verifier::external_body] fn rt_as_ref(&self) -> (r: &str) { unimplemented!() } }
pub broadcast axiom fn as_ref_string(s: &String) ensures #[trigger] string_str(s)@ == s@;
// HashMap::get_mut
pub uninterp spec fn borrows<Key, Q: ?Sized>(key: Key, k: &Q) -> bool;
pub broadcast axiom fn borrows_self<Key>(key: Key, k: &Key) ensures #[trigger] borrows::<Key, Key>(key, k) == (key == *k);
pub assume_specification<'a, Key, Value, S, A, Q: ?Sized>[ HashMap::<Key, Value, S, A>::get_mut::<Q> ](m: &'a mut HashMap<Key, Value, S, A>, k: &Q) -> (r: Option<&'a mut Value>)
   where Key: std::borrow::Borrow<Q> + std::hash::Hash + Eq, Q: std::hash::Hash + Eq, S: std::hash::BuildHasher, A: std::alloc::Allocator
   ensures vstd::std_specs::hash::obeys_key_model::<Key>() ==> match r {
     Some(v) => (exists|key: Key| #[trigger] borrows(key, k) && old(m)@.contains_key(key) && old(m)@[key] == *v) && final(m)@.dom() == old(m)@.dom()
         && forall|key: Key| #[trigger] final(m)@.contains_key(key) ==> final(m)@[key] == (if borrows(key, k) { *final(v) } else { old(m)@[key] }),
     None => final(m)@ == old(m)@ && forall|key: Key| #[trigger] old(m)@.contains_key(key) ==> !borrows(key, k),
   };
// ---------------------------------------------------------------- iteration over hash containers
// Each entry exactly once, in an order about which nothing is known.
pub open spec fn items_of<'a, K, V>(r: Seq<(&'a K, &'a V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> m.contains_key(*(#[trigger] r[i]).0) && m[*r[i].0] == *r[i].1
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> *(#[trigger] r[i]).0 != *(#[trigger] r[j]).0
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < r.len() && *(#[trigger] r[i]).0 == k
}
pub open spec fn elems_of<'a, K>(r: Seq<&'a K>, s: Set<K>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> s.contains(*(#[trigger] r[i]))
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> *(#[trigger] r[i]) != *(#[trigger] r[j])
    &&& forall|k: K| #[trigger] s.contains(k) ==> exists|i: int| 0 <= i < r.len() && *(#[trigger] r[i]) == k
}
pub trait RtMap<K, V> { spec fn rt_map(&self) -> Map<K, V>;
    fn rt_items(&self) -> (r: Vec<(&K, &V)>) ensures items_of(r@, self.rt_map());
    fn rt_keys(&self) -> (r: Vec<&K>) ensures elems_of(r@, self.rt_map().dom());
    fn rt_first_key(&self) -> (r: Option<&K>) ensures match r { Some(k) => self.rt_map().contains_key(*k), None => self.rt_map() == Map::<K, V>::empty() };
    fn rt_first_value(&self) -> (r: Option<&V>) ensures match r { Some(v) => exists|k: K| #[trigger] self.rt_map().contains_key(k) && self.rt_map()[k] == *v, None => self.rt_map() == Map::<K, V>::empty() };
}
impl<K, V> RtMap<K, V> for HashMap<K, V> { open spec fn rt_map(&self) -> Map<K, V> { self@ }
    #[verifier::external_body] fn rt_items(&self) -> (r: Vec<(&K, &V)>) { unimplemented!() }
    #[verifier::external_body] fn rt_keys(&self) -> (r: Vec<&K>) { unimplemented!() }
    #[verifier::external_body] fn rt_first_key(&self) -> (r: Option<&K>) { unimplemented!() }
    #[verifier::external_body] fn rt_first_value(&self) -> (r: Option<&V>) { unimplemented!() } }
pub trait RtExtend<T> { spec fn rt_seq(&self) -> Seq<T>; fn rt_extend(&mut self, o: Vec<T>) ensures final(self).rt_seq() == old(self).rt_seq() + o@; }
impl<T> RtExtend<T> for Vec<T> { open spec fn rt_seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn rt_extend(&mut self, o: Vec<T>) { unimplemented!() } }
// the text of a formatted string is not modelled
#[verifier::external_body] pub fn rt_format() -> (r: String) { unimplemented!() }
pub trait RtSet<K> { spec fn rt_set(&self) -> Set<K>;
    fn rt_items(&self) -> (r: Vec<&K>) ensures elems_of(r@, self.rt_set()); }
impl<K> RtSet<K> for HashSet<K> { open spec fn rt_set(&self) -> Set<K> { self@ }
    #[verifier::external_body] fn rt_items(&self) -> (r: Vec<&K>) { unimplemented!() } }
// identity of an allocation: every object gets its own (nothing is known about it)
pub uninterp spec fn fresh(id: int) -> bool;  // comes from a call of fresh_id
#[verifier::external_body] pub fn fresh_id() -> (r: Ghost<int>) ensures fresh(r@) { unimplemented!() }
// ---------------------------------------------------------------- panics
// A call of rt_assert/rt_panic is an obligation: the panic is unreachable.
pub fn rt_assert(c: bool) requires c {}
#[verifier::external_body] pub fn rt_panic() -> ! requires false { unimplemented!() }
pub fn rt_and(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
pub fn rt_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
pub fn rt_min(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
} // verus!
