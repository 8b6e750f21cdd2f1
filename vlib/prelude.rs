// Prelude of every generated verification file.
// NF stands for NativeFloat: an exact real (ghost).  Scalar and Point are the contract versions of the traits the
// library is generic over: same operators, each with a law that gives its value over the reals.
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use core::ops::{Add, Div, Mul, Neg, Sub};
verus! {

// ------------------------------------------------------------ reals
pub open spec fn eps() -> real { 1real / 4503599627370496real }
pub uninterp spec fn rsqrt(x: real) -> real;
/// TRUSTED: every non-negative real has a non-negative square root.
pub axiom fn axiom_sqrt(x: real) requires x >= 0real ensures rsqrt(x) >= 0real, rsqrt(x) * rsqrt(x) == x;
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
pub open spec fn rmax(x: real, y: real) -> real { if x < y { y } else { x } }
pub open spec fn rmin(x: real, y: real) -> real { if y < x { y } else { x } }
pub open spec fn rcmp(x: real, y: real) -> core::cmp::Ordering {
    if x < y { core::cmp::Ordering::Less } else if x > y { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal }
}

/// a panic: proving its call unreachable is an obligation
#[verifier::external_body]
pub fn vpanic<T>() -> (r: T) requires false { panic!() }
/// some array; every element is written before it is read (the loop that core::array::from_fn and the map of arrays abbreviate)
#[verifier::external_body] pub fn arr_new<T, const N: usize>() -> (r: [T; N]) { unimplemented!() }

// ------------------------------------------------------------ NativeFloat
#[derive(Copy, Clone)]
pub struct NF { pub v: Ghost<real> }
impl NF { pub open spec fn value(self) -> real { self.v@ } }
pub open spec fn nf_of(r: real) -> NF { NF { v: Ghost(r) } }
pub fn nf_lit(Ghost(r): Ghost<real>) -> (x: NF) ensures x.value() == r, x == nf_of(r) { NF { v: Ghost(r) } }
pub trait ToNF: Sized { spec fn nf_value(self) -> real; fn to_nf(self) -> (r: NF) ensures r.value() == self.nf_value(), r == nf_of(self.nf_value()); }
impl ToNF for NF { open spec fn nf_value(self) -> real { self.value() } fn to_nf(self) -> (r: NF) { self } }
impl ToNF for usize { open spec fn nf_value(self) -> real { self as int as real } fn to_nf(self) -> (r: NF) { NF { v: Ghost(self as int as real) } } }
impl ToNF for isize { open spec fn nf_value(self) -> real { self as int as real } fn to_nf(self) -> (r: NF) { NF { v: Ghost(self as int as real) } } }
impl ToNF for i32 { open spec fn nf_value(self) -> real { self as int as real } fn to_nf(self) -> (r: NF) { NF { v: Ghost(self as int as real) } } }
impl ToNF for i8 { open spec fn nf_value(self) -> real { self as int as real } fn to_nf(self) -> (r: NF) { NF { v: Ghost(self as int as real) } } }
impl ToNF for i16 { open spec fn nf_value(self) -> real { self as int as real } fn to_nf(self) -> (r: NF) { NF { v: Ghost(self as int as real) } } }
impl ToNF for i64 { open spec fn nf_value(self) -> real { self as int as real } fn to_nf(self) -> (r: NF) { NF { v: Ghost(self as int as real) } } }
impl ToNF for u8 { open spec fn nf_value(self) -> real { self as int as real } fn to_nf(self) -> (r: NF) { NF { v: Ghost(self as int as real) } } }
impl ToNF for u16 { open spec fn nf_value(self) -> real { self as int as real } fn to_nf(self) -> (r: NF) { NF { v: Ghost(self as int as real) } } }
impl ToNF for u32 { open spec fn nf_value(self) -> real { self as int as real } fn to_nf(self) -> (r: NF) { NF { v: Ghost(self as int as real) } } }
impl ToNF for u64 { open spec fn nf_value(self) -> real { self as int as real } fn to_nf(self) -> (r: NF) { NF { v: Ghost(self as int as real) } } }
pub fn nf_cast<T: ToNF>(x: T) -> (r: NF) ensures r.value() == x.nf_value(), r == nf_of(x.nf_value()) { x.to_nf() }
pub fn nf_eps() -> (r: NF) ensures r.value() == eps(), r == nf_of(eps()) { NF { v: Ghost(eps()) } }

impl Add<NF> for NF { type Output = NF; fn add(self, o: NF) -> (r: NF) { NF { v: Ghost(self.v@ + o.v@) } } }
impl AddSpecImpl<NF> for NF { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: NF) -> bool { true } open spec fn add_spec(self, o: NF) -> NF { nf_of(self.value() + o.value()) } }
impl Sub<NF> for NF { type Output = NF; fn sub(self, o: NF) -> (r: NF) { NF { v: Ghost(self.v@ - o.v@) } } }
impl SubSpecImpl<NF> for NF { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: NF) -> bool { true } open spec fn sub_spec(self, o: NF) -> NF { nf_of(self.value() - o.value()) } }
impl Mul<NF> for NF { type Output = NF; fn mul(self, o: NF) -> (r: NF) { NF { v: Ghost(self.v@ * o.v@) } } }
impl MulSpecImpl<NF> for NF { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: NF) -> bool { true } open spec fn mul_spec(self, o: NF) -> NF { nf_of(self.value() * o.value()) } }
impl Div<NF> for NF { type Output = NF; fn div(self, o: NF) -> (r: NF) { NF { v: Ghost(self.v@ / o.v@) } } }
impl DivSpecImpl<NF> for NF { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: NF) -> bool { true } open spec fn div_spec(self, o: NF) -> NF { nf_of(self.value() / o.value()) } }
impl Neg for NF { type Output = NF; fn neg(self) -> (r: NF) { NF { v: Ghost(-self.v@) } } }
impl NegSpecImpl for NF { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> NF { nf_of(-self.value()) } }
impl PartialEqSpecImpl for NF { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &NF) -> bool { self.value() == o.value() } }
impl PartialOrdSpecImpl for NF { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &NF) -> Option<core::cmp::Ordering> { Some(rcmp(self.value(), o.value())) } }
// TRUSTED: comparisons of ghost reals have no executable meaning; only their contract is used.
impl PartialEq for NF { #[verifier::external_body] fn eq(&self, o: &NF) -> (r: bool) { unimplemented!() } }
impl PartialOrd for NF { #[verifier::external_body] fn partial_cmp(&self, o: &NF) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl Default for NF { fn default() -> (r: NF) ensures r.value() == 0real { NF { v: Ghost(0real) } } }
impl NF {
    // the Float methods used on NativeFloat itself
    pub fn sqrt(self) -> (r: NF) ensures r.value() == rsqrt(self.value()) { NF { v: Ghost(rsqrt(self.v@)) } }
    pub fn abs(self) -> (r: NF) ensures r.value() == rabs(self.value()) { NF { v: Ghost(rabs(self.v@)) } }
    pub fn max(self, o: NF) -> (r: NF) ensures r.value() == rmax(self.value(), o.value()) { NF { v: Ghost(rmax(self.v@, o.v@)) } }
    pub fn min(self, o: NF) -> (r: NF) ensures r.value() == rmin(self.value(), o.value()) { NF { v: Ghost(rmin(self.v@, o.v@)) } }
    pub fn is_nan(self) -> (r: bool) ensures !r { false }
}

// ------------------------------------------------------------ Scalar (num_traits::Float plus the bounds of Point::Scalar)
pub trait Scalar: Copy + PartialEq + PartialOrd + Default + From<NF> + Into<NF>
    + Add<Self, Output = Self> + Sub<Self, Output = Self> + Mul<Self, Output = Self> + Div<Self, Output = Self> + Neg<Output = Self>
    + Add<NF, Output = Self> + Sub<NF, Output = Self> + Mul<NF, Output = Self> + Div<NF, Output = Self>
{
    spec fn val(self) -> real;
    proof fn law_add(a: Self, b: Self) ensures <Self as AddSpec<Self>>::obeys_add_spec(), AddSpec::<Self>::add_req(a, b), AddSpec::<Self>::add_spec(a, b).val() == a.val() + b.val();
    proof fn law_sub(a: Self, b: Self) ensures <Self as SubSpec<Self>>::obeys_sub_spec(), SubSpec::<Self>::sub_req(a, b), SubSpec::<Self>::sub_spec(a, b).val() == a.val() - b.val();
    proof fn law_mul(a: Self, b: Self) ensures <Self as MulSpec<Self>>::obeys_mul_spec(), MulSpec::<Self>::mul_req(a, b), MulSpec::<Self>::mul_spec(a, b).val() == a.val() * b.val();
    proof fn law_div(a: Self, b: Self) ensures <Self as DivSpec<Self>>::obeys_div_spec(), DivSpec::<Self>::div_req(a, b), DivSpec::<Self>::div_spec(a, b).val() == a.val() / b.val();
    proof fn law_neg(a: Self) ensures <Self as NegSpec>::obeys_neg_spec(), NegSpec::neg_req(a), NegSpec::neg_spec(a).val() == -a.val();
    proof fn law_add_nf(a: Self, b: NF) ensures <Self as AddSpec<NF>>::obeys_add_spec(), AddSpec::<NF>::add_req(a, b), AddSpec::<NF>::add_spec(a, b).val() == a.val() + b.value();
    proof fn law_sub_nf(a: Self, b: NF) ensures <Self as SubSpec<NF>>::obeys_sub_spec(), SubSpec::<NF>::sub_req(a, b), SubSpec::<NF>::sub_spec(a, b).val() == a.val() - b.value();
    proof fn law_mul_nf(a: Self, b: NF) ensures <Self as MulSpec<NF>>::obeys_mul_spec(), MulSpec::<NF>::mul_req(a, b), MulSpec::<NF>::mul_spec(a, b).val() == a.val() * b.value();
    proof fn law_div_nf(a: Self, b: NF) ensures <Self as DivSpec<NF>>::obeys_div_spec(), DivSpec::<NF>::div_req(a, b), DivSpec::<NF>::div_spec(a, b).val() == a.val() / b.value();
    proof fn law_from(b: NF) ensures <Self as FromSpec<NF>>::obeys_from_spec(), <Self as FromSpec<NF>>::from_spec(b).val() == b.value();
    proof fn law_into(a: Self) ensures <Self as IntoSpec<NF>>::obeys_into_spec(), <Self as IntoSpec<NF>>::into_spec(a).value() == a.val();
    proof fn law_cmp(a: Self, b: Self) ensures
        <Self as PartialOrdSpec<Self>>::obeys_partial_cmp_spec(), <Self as PartialEqSpec<Self>>::obeys_eq_spec(),
        PartialEqSpec::eq_spec(&a, &b) == (a.val() == b.val()), PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(rcmp(a.val(), b.val()));
    fn sqrt(self) -> (r: Self) ensures r.val() == rsqrt(self.val());
    fn abs(self) -> (r: Self) ensures r.val() == rabs(self.val());
    fn max(self, o: Self) -> (r: Self) ensures r.val() == rmax(self.val(), o.val());
    fn min(self, o: Self) -> (r: Self) ensures r.val() == rmin(self.val(), o.val());
    fn is_nan(self) -> (r: bool) ensures !r;
    fn epsilon() -> (r: Self) ensures r.val() == eps();
    fn s_default() -> (r: Self) ensures r.val() == 0real;
}

/// not NaN: there is none among the reals (see prelude_fp.rs)
pub open spec fn num<S: Scalar>(x: S) -> bool { true }
/// TRUSTED: core's `impl From<T> for T` (and hence Into<T> for T) is the identity.
pub axiom fn axiom_reflexive_from(b: NF) ensures
    <NF as FromSpec<NF>>::obeys_from_spec(), <NF as FromSpec<NF>>::from_spec(b) == b, <NF as IntoSpec<NF>>::obeys_into_spec(), <NF as IntoSpec<NF>>::into_spec(b) == b;
/// NativeFloat is a Scalar (shows the laws are satisfiable).
impl Scalar for NF {
    open spec fn val(self) -> real { self.value() }
    proof fn law_add(a: Self, b: Self) {} proof fn law_sub(a: Self, b: Self) {} proof fn law_mul(a: Self, b: Self) {} proof fn law_div(a: Self, b: Self) {}
    proof fn law_neg(a: Self) {}
    proof fn law_add_nf(a: Self, b: NF) {} proof fn law_sub_nf(a: Self, b: NF) {} proof fn law_mul_nf(a: Self, b: NF) {} proof fn law_div_nf(a: Self, b: NF) {}
    proof fn law_from(b: NF) { axiom_reflexive_from(b); } proof fn law_into(a: Self) { axiom_reflexive_from(a); } proof fn law_cmp(a: Self, b: Self) {}
    fn sqrt(self) -> (r: Self) { NF { v: Ghost(rsqrt(self.v@)) } }
    fn abs(self) -> (r: Self) { NF { v: Ghost(rabs(self.v@)) } }
    fn max(self, o: Self) -> (r: Self) { NF { v: Ghost(rmax(self.v@, o.v@)) } }
    fn min(self, o: Self) -> (r: Self) { NF { v: Ghost(rmin(self.v@, o.v@)) } }
    fn is_nan(self) -> (r: bool) { false }
    fn epsilon() -> (r: Self) { NF { v: Ghost(eps()) } }
    fn s_default() -> (r: Self) { NF { v: Ghost(0real) } }
}


// laws as broadcast lemmas: *_req/obeys facts let calls go through, *_val facts give values over the reals
pub broadcast proof fn s_add_ob<S: Scalar>() ensures #[trigger] <S as AddSpec<S>>::obeys_add_spec()
    { S::law_add(arbitrary(), arbitrary()); }
pub broadcast proof fn s_add_req<S: Scalar>(a: S, b: S) ensures #[trigger] AddSpec::<S>::add_req(a, b) { S::law_add(a, b); }
pub broadcast proof fn s_add_val<S: Scalar>(a: S, b: S) ensures (#[trigger] AddSpec::<S>::add_spec(a, b)).val() == a.val() + b.val() { S::law_add(a, b); }
pub broadcast proof fn n_add_ob<S: Scalar>() ensures #[trigger] <S as AddSpec<NF>>::obeys_add_spec()
    { S::law_add_nf(arbitrary(), arbitrary()); }
pub broadcast proof fn n_add_req<S: Scalar>(a: S, b: NF) ensures #[trigger] AddSpec::<NF>::add_req(a, b) { S::law_add_nf(a, b); }
pub broadcast proof fn n_add_val<S: Scalar>(a: S, b: NF) ensures (#[trigger] AddSpec::<NF>::add_spec(a, b)).val() == a.val() + b.value() { S::law_add_nf(a, b); }
pub broadcast proof fn s_sub_ob<S: Scalar>() ensures #[trigger] <S as SubSpec<S>>::obeys_sub_spec()
    { S::law_sub(arbitrary(), arbitrary()); }
pub broadcast proof fn s_sub_req<S: Scalar>(a: S, b: S) ensures #[trigger] SubSpec::<S>::sub_req(a, b) { S::law_sub(a, b); }
pub broadcast proof fn s_sub_val<S: Scalar>(a: S, b: S) ensures (#[trigger] SubSpec::<S>::sub_spec(a, b)).val() == a.val() - b.val() { S::law_sub(a, b); }
pub broadcast proof fn n_sub_ob<S: Scalar>() ensures #[trigger] <S as SubSpec<NF>>::obeys_sub_spec()
    { S::law_sub_nf(arbitrary(), arbitrary()); }
pub broadcast proof fn n_sub_req<S: Scalar>(a: S, b: NF) ensures #[trigger] SubSpec::<NF>::sub_req(a, b) { S::law_sub_nf(a, b); }
pub broadcast proof fn n_sub_val<S: Scalar>(a: S, b: NF) ensures (#[trigger] SubSpec::<NF>::sub_spec(a, b)).val() == a.val() - b.value() { S::law_sub_nf(a, b); }
pub broadcast proof fn s_mul_ob<S: Scalar>() ensures #[trigger] <S as MulSpec<S>>::obeys_mul_spec()
    { S::law_mul(arbitrary(), arbitrary()); }
pub broadcast proof fn s_mul_req<S: Scalar>(a: S, b: S) ensures #[trigger] MulSpec::<S>::mul_req(a, b) { S::law_mul(a, b); }
pub broadcast proof fn s_mul_val<S: Scalar>(a: S, b: S) ensures (#[trigger] MulSpec::<S>::mul_spec(a, b)).val() == a.val() * b.val() { S::law_mul(a, b); }
pub broadcast proof fn n_mul_ob<S: Scalar>() ensures #[trigger] <S as MulSpec<NF>>::obeys_mul_spec()
    { S::law_mul_nf(arbitrary(), arbitrary()); }
pub broadcast proof fn n_mul_req<S: Scalar>(a: S, b: NF) ensures #[trigger] MulSpec::<NF>::mul_req(a, b) { S::law_mul_nf(a, b); }
pub broadcast proof fn n_mul_val<S: Scalar>(a: S, b: NF) ensures (#[trigger] MulSpec::<NF>::mul_spec(a, b)).val() == a.val() * b.value() { S::law_mul_nf(a, b); }
pub broadcast proof fn s_div_ob<S: Scalar>() ensures #[trigger] <S as DivSpec<S>>::obeys_div_spec()
    { S::law_div(arbitrary(), arbitrary()); }
pub broadcast proof fn s_div_req<S: Scalar>(a: S, b: S) ensures #[trigger] DivSpec::<S>::div_req(a, b) { S::law_div(a, b); }
pub broadcast proof fn s_div_val<S: Scalar>(a: S, b: S) ensures (#[trigger] DivSpec::<S>::div_spec(a, b)).val() == a.val() / b.val() { S::law_div(a, b); }
pub broadcast proof fn n_div_ob<S: Scalar>() ensures #[trigger] <S as DivSpec<NF>>::obeys_div_spec()
    { S::law_div_nf(arbitrary(), arbitrary()); }
pub broadcast proof fn n_div_req<S: Scalar>(a: S, b: NF) ensures #[trigger] DivSpec::<NF>::div_req(a, b) { S::law_div_nf(a, b); }
pub broadcast proof fn n_div_val<S: Scalar>(a: S, b: NF) ensures (#[trigger] DivSpec::<NF>::div_spec(a, b)).val() == a.val() / b.value() { S::law_div_nf(a, b); }
pub broadcast proof fn s_neg_ob<S: Scalar>() ensures #[trigger] <S as NegSpec>::obeys_neg_spec()
    { S::law_neg(arbitrary()); }
pub broadcast proof fn s_neg_req<S: Scalar>(a: S) ensures #[trigger] NegSpec::neg_req(a) { S::law_neg(a); }
pub broadcast proof fn s_neg_val<S: Scalar>(a: S) ensures (#[trigger] NegSpec::neg_spec(a)).val() == -a.val() { S::law_neg(a); }
pub broadcast proof fn s_from_ob<S: Scalar>() ensures #[trigger] <S as FromSpec<NF>>::obeys_from_spec() { S::law_from(nf_of(0real)); }
pub broadcast proof fn s_from_val<S: Scalar>(b: NF) ensures <S as FromSpec<NF>>::obeys_from_spec(), (#[trigger] <S as FromSpec<NF>>::from_spec(b)).val() == b.value() { S::law_from(b); }
pub broadcast proof fn s_into_ob<S: Scalar>() ensures #[trigger] <S as IntoSpec<NF>>::obeys_into_spec() { S::law_into(arbitrary()); }
pub broadcast proof fn s_into_val<S: Scalar>(a: S) ensures <S as IntoSpec<NF>>::obeys_into_spec(), (#[trigger] <S as IntoSpec<NF>>::into_spec(a)).value() == a.val() { S::law_into(a); }
pub broadcast proof fn s_eq_ob<S: Scalar>() ensures #[trigger] <S as PartialEqSpec<S>>::obeys_eq_spec() { S::law_cmp(arbitrary(), arbitrary()); }
pub broadcast proof fn s_eq_val<S: Scalar>(a: S, b: S) ensures <S as PartialEqSpec<S>>::obeys_eq_spec(), #[trigger] PartialEqSpec::eq_spec(&a, &b) == (a.val() == b.val()) { S::law_cmp(a, b); }
pub broadcast proof fn s_cmp_ob<S: Scalar>() ensures #[trigger] <S as PartialOrdSpec<S>>::obeys_partial_cmp_spec() { S::law_cmp(arbitrary(), arbitrary()); }
pub broadcast proof fn s_cmp_val<S: Scalar>(a: S, b: S) ensures <S as PartialOrdSpec<S>>::obeys_partial_cmp_spec(), #[trigger] PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(rcmp(a.val(), b.val())) { S::law_cmp(a, b); }
pub broadcast group scalar_laws { s_add_ob, s_add_req, s_add_val, n_add_ob, n_add_req, n_add_val, s_sub_ob, s_sub_req, s_sub_val, n_sub_ob, n_sub_req, n_sub_val, s_mul_ob, s_mul_req, s_mul_val, n_mul_ob, n_mul_req, n_mul_val, s_div_ob, s_div_req, s_div_val, n_div_ob, n_div_req, n_div_val, s_neg_ob, s_neg_req, s_neg_val, s_from_ob, s_from_val, s_into_ob, s_into_val, s_eq_ob, s_eq_val, s_cmp_ob, s_cmp_val }

// ------------------------------------------------------------ Point
/// sum of c(i)*c(i) for i < n
pub open spec fn sqsum(f: spec_fn(int) -> real, n: nat) -> real decreases n { if n == 0 { 0real } else { sqsum(f, (n - 1) as nat) + f(n - 1) * f(n - 1) } }
pub trait Point: Sized + Copy + PartialEq + Default + Add<Self, Output = Self> + Sub<Self, Output = Self> + Mul<<Self as Point>::Scalar, Output = Self> + Mul<NF, Output = Self> {
    type Scalar: Scalar;
    spec fn c(self, i: int) -> real;
    spec fn dim() -> nat;
    proof fn law_add(a: Self, b: Self) ensures <Self as AddSpec<Self>>::obeys_add_spec(), AddSpec::add_req(a, b), forall|i: int| (#[trigger] AddSpec::add_spec(a, b).c(i)) == a.c(i) + b.c(i);
    proof fn law_sub(a: Self, b: Self) ensures <Self as SubSpec<Self>>::obeys_sub_spec(), SubSpec::sub_req(a, b), forall|i: int| (#[trigger] SubSpec::sub_spec(a, b).c(i)) == a.c(i) - b.c(i);
    proof fn law_mul(a: Self, b: Self::Scalar) ensures <Self as MulSpec<Self::Scalar>>::obeys_mul_spec(), MulSpec::mul_req(a, b), forall|i: int| (#[trigger] MulSpec::mul_spec(a, b).c(i)) == a.c(i) * b.val();
    proof fn law_mul_nf(a: Self, b: NF) ensures <Self as MulSpec<NF>>::obeys_mul_spec(), MulSpec::mul_req(a, b), forall|i: int| (#[trigger] MulSpec::mul_spec(a, b).c(i)) == a.c(i) * b.value();
    proof fn law_eq(a: Self, b: Self) ensures <Self as PartialEqSpec<Self>>::obeys_eq_spec(), PartialEqSpec::eq_spec(&a, &b) == (forall|i: int| #[trigger] a.c(i) == b.c(i));
    fn dim_exec() -> (r: usize) ensures r == Self::dim();
    fn axis(&self, index: usize) -> (r: Self::Scalar) requires index < Self::dim() ensures r.val() == self.c(index as int);
    spec fn sqlen(self) -> real;
    proof fn law_sqlen(a: Self) ensures a.sqlen() == sqsum(|i: int| a.c(i), Self::dim());
    fn squared_length(&self) -> (r: Self::Scalar) ensures r.val() == self.sqlen();
}
pub broadcast proof fn p_add_ob<S: Point>() ensures #[trigger] <S as AddSpec<S>>::obeys_add_spec()
    { S::law_add(arbitrary(), arbitrary()); }
pub broadcast proof fn p_add_req<S: Point>(a: S, b: S) ensures #[trigger] AddSpec::<S>::add_req(a, b) { S::law_add(a, b); }
pub broadcast proof fn p_add_val<S: Point>(a: S, b: S, i: int) ensures (#[trigger] AddSpec::<S>::add_spec(a, b).c(i)) == a.c(i) + b.c(i) { S::law_add(a, b); }
pub broadcast proof fn p_sub_ob<S: Point>() ensures #[trigger] <S as SubSpec<S>>::obeys_sub_spec()
    { S::law_sub(arbitrary(), arbitrary()); }
pub broadcast proof fn p_sub_req<S: Point>(a: S, b: S) ensures #[trigger] SubSpec::<S>::sub_req(a, b) { S::law_sub(a, b); }
pub broadcast proof fn p_sub_val<S: Point>(a: S, b: S, i: int) ensures (#[trigger] SubSpec::<S>::sub_spec(a, b).c(i)) == a.c(i) - b.c(i) { S::law_sub(a, b); }
pub broadcast proof fn p_mul_ob<S: Point>() ensures #[trigger] <S as MulSpec<S::Scalar>>::obeys_mul_spec()
    { S::law_mul(arbitrary(), arbitrary()); }
pub broadcast proof fn p_mul_req<S: Point>(a: S, b: S::Scalar) ensures #[trigger] MulSpec::<S::Scalar>::mul_req(a, b) { S::law_mul(a, b); }
pub broadcast proof fn p_mul_val<S: Point>(a: S, b: S::Scalar, i: int) ensures (#[trigger] MulSpec::<S::Scalar>::mul_spec(a, b).c(i)) == a.c(i) * b.val() { S::law_mul(a, b); }
pub broadcast proof fn p_muln_ob<S: Point>() ensures #[trigger] <S as MulSpec<NF>>::obeys_mul_spec()
    { S::law_mul_nf(arbitrary(), arbitrary()); }
pub broadcast proof fn p_muln_req<S: Point>(a: S, b: NF) ensures #[trigger] MulSpec::<NF>::mul_req(a, b) { S::law_mul_nf(a, b); }
pub broadcast proof fn p_muln_val<S: Point>(a: S, b: NF, i: int) ensures (#[trigger] MulSpec::<NF>::mul_spec(a, b).c(i)) == a.c(i) * b.value() { S::law_mul_nf(a, b); }
pub broadcast proof fn p_eq_ob<S: Point>() ensures #[trigger] <S as PartialEqSpec<S>>::obeys_eq_spec() { S::law_eq(arbitrary(), arbitrary()); }
pub broadcast proof fn p_eq_val<S: Point>(a: S, b: S) ensures <S as PartialEqSpec<S>>::obeys_eq_spec(), #[trigger] PartialEqSpec::eq_spec(&a, &b) == (forall|i: int| #[trigger] a.c(i) == b.c(i)) { S::law_eq(a, b); }
pub broadcast group point_laws { p_eq_ob, p_eq_val, p_add_ob, p_add_req, p_add_val, p_sub_ob, p_sub_req, p_sub_val, p_mul_ob, p_mul_req, p_mul_val, p_muln_ob, p_muln_req, p_muln_val }

} // verus!
