// Prelude of the verification files over floating-point numbers (safety, domains, construction).
// Arithmetic is left open: an operation gives some value, possibly NaN.  The only laws are
//  * comparisons: NaN compares false with everything, all other values are totally ordered (val embeds that order in the reals),
//  * no overflow: sums, differences and products of finite numbers are finite (finite: not NaN and below 2^1024 in magnitude);
//    a quotient of finite numbers with a divisor other than zero is not NaN, and finite for a divisor of at least machine epsilon.
// Generated from the same trait signatures as prelude.rs.
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use core::ops::{Add, Div, Mul, Neg, Sub};
verus! {

pub open spec fn eps() -> real { 1real / 4503599627370496real }
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
pub open spec fn rcmp(x: real, y: real) -> core::cmp::Ordering {
    if x < y { core::cmp::Ordering::Less } else if x > y { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal }
}
/// every finite number lies between -big() and big()
pub uninterp spec fn big() -> real;
/// TRUSTED: there are finite numbers beyond 1.
pub axiom fn axiom_big() ensures big() > 1real;

/// a panic: proving its call unreachable is an obligation
#[verifier::external_body]
pub fn vpanic<T>() -> (r: T) requires false { panic!() }
/// some array; every element is written before it is read (the loop that core::array::from_fn and the map of arrays abbreviate)
#[verifier::external_body] pub fn arr_new<T, const N: usize>() -> (r: [T; N]) { unimplemented!() }

// ------------------------------------------------------------ NativeFloat
#[derive(Copy, Clone)]
pub struct NF { pub v: Ghost<real>, pub n: Ghost<bool> }
impl NF {
    pub open spec fn value(self) -> real { self.v@ }
    pub open spec fn isnan(self) -> bool { self.n@ }
}
pub open spec fn fin_v(v: real, nan: bool) -> bool { !nan && -big() < v < big() }
pub open spec fn nfin(x: NF) -> bool { fin_v(x.value(), x.isnan()) }
pub open spec fn nf_of(r: real) -> NF { NF { v: Ghost(r), n: Ghost(false) } }
/// TRUSTED: literals are finite; 0 and 1 are exact.
#[verifier::external_body]
pub fn nf_lit(Ghost(r): Ghost<real>) -> (x: NF) ensures nfin(x), r == 0real ==> x.value() == 0real, r == 1real ==> x.value() == 1real { unimplemented!() }
pub trait ToNF: Sized { spec fn ok(self) -> bool; }
impl ToNF for NF { open spec fn ok(self) -> bool { nfin(self) } }
impl ToNF for usize { open spec fn ok(self) -> bool { true } }
impl ToNF for isize { open spec fn ok(self) -> bool { true } }
impl ToNF for i32 { open spec fn ok(self) -> bool { true } }
impl ToNF for i8 { open spec fn ok(self) -> bool { true } }
impl ToNF for i16 { open spec fn ok(self) -> bool { true } }
impl ToNF for i64 { open spec fn ok(self) -> bool { true } }
impl ToNF for u8 { open spec fn ok(self) -> bool { true } }
impl ToNF for u16 { open spec fn ok(self) -> bool { true } }
impl ToNF for u32 { open spec fn ok(self) -> bool { true } }
impl ToNF for u64 { open spec fn ok(self) -> bool { true } }
/// TRUSTED: an integer converts to a finite number.
#[verifier::external_body]
pub fn nf_cast<T: ToNF>(x: T) -> (r: NF) ensures x.ok() ==> nfin(r) { unimplemented!() }
pub fn nf_eps() -> (r: NF) ensures r.value() == eps(), nfin(r) { proof { axiom_big(); } NF { v: Ghost(eps()), n: Ghost(false) } }

pub uninterp spec fn fp_add(a: NF, b: NF) -> NF;
impl Add<NF> for NF { type Output = NF; #[verifier::external_body] fn add(self, o: NF) -> (r: NF) { unimplemented!() } }
impl AddSpecImpl<NF> for NF { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: NF) -> bool { true } open spec fn add_spec(self, o: NF) -> NF { fp_add(self, o) } }
pub uninterp spec fn fp_sub(a: NF, b: NF) -> NF;
impl Sub<NF> for NF { type Output = NF; #[verifier::external_body] fn sub(self, o: NF) -> (r: NF) { unimplemented!() } }
impl SubSpecImpl<NF> for NF { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: NF) -> bool { true } open spec fn sub_spec(self, o: NF) -> NF { fp_sub(self, o) } }
pub uninterp spec fn fp_mul(a: NF, b: NF) -> NF;
impl Mul<NF> for NF { type Output = NF; #[verifier::external_body] fn mul(self, o: NF) -> (r: NF) { unimplemented!() } }
impl MulSpecImpl<NF> for NF { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: NF) -> bool { true } open spec fn mul_spec(self, o: NF) -> NF { fp_mul(self, o) } }
pub uninterp spec fn fp_div(a: NF, b: NF) -> NF;
impl Div<NF> for NF { type Output = NF; #[verifier::external_body] fn div(self, o: NF) -> (r: NF) { unimplemented!() } }
impl DivSpecImpl<NF> for NF { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: NF) -> bool { true } open spec fn div_spec(self, o: NF) -> NF { fp_div(self, o) } }
pub uninterp spec fn fp_neg(a: NF) -> NF;
impl Neg for NF { type Output = NF; #[verifier::external_body] fn neg(self) -> (r: NF) { unimplemented!() } }
impl NegSpecImpl for NF { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> NF { fp_neg(self) } }
impl PartialEqSpecImpl for NF { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &NF) -> bool { !self.isnan() && !o.isnan() && self.value() == o.value() } }
impl PartialOrdSpecImpl for NF { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &NF) -> Option<core::cmp::Ordering> { if self.isnan() || o.isnan() { None } else { Some(rcmp(self.value(), o.value())) } } }
impl PartialEq for NF { #[verifier::external_body] fn eq(&self, o: &NF) -> (r: bool) { unimplemented!() } }
impl PartialOrd for NF { #[verifier::external_body] fn partial_cmp(&self, o: &NF) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl Default for NF { fn default() -> (r: NF) ensures r.value() == 0real, !r.isnan() { NF { v: Ghost(0real), n: Ghost(false) } } }
/// TRUSTED: no overflow (inputs of moderate magnitude)
pub axiom fn axiom_arith(a: NF, b: NF) ensures
    nfin(a) && nfin(b) ==> nfin(fp_add(a, b)) && nfin(fp_sub(a, b)) && nfin(fp_mul(a, b)),
    nfin(a) && nfin(b) && b.value() != 0real ==> !fp_div(a, b).isnan(), nfin(a) && nfin(b) && rabs(b.value()) >= eps() ==> nfin(fp_div(a, b)),
    nfin(a) ==> nfin(fp_neg(a));
impl NF {
    // the Float methods used on NativeFloat itself
    #[verifier::external_body] pub fn sqrt(self) -> (r: NF) { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (r: NF) ensures !self.isnan() ==> !r.isnan() && r.value() == rabs(self.value()) { unimplemented!() }
    #[verifier::external_body] pub fn max(self, o: NF) -> (r: NF) ensures !self.isnan() && !o.isnan() ==> !r.isnan() && r.value() == (if self.value() < o.value() { o.value() } else { self.value() }) { unimplemented!() }
    #[verifier::external_body] pub fn min(self, o: NF) -> (r: NF) ensures !self.isnan() && !o.isnan() ==> !r.isnan() && r.value() == (if o.value() < self.value() { o.value() } else { self.value() }) { unimplemented!() }
    pub fn is_nan(self) -> (r: bool) ensures r == self.isnan() { let g = self.cmp_self(); !g }
    #[verifier::external_body] fn cmp_self(self) -> (r: bool) ensures r == !self.isnan() { unimplemented!() }
}

// ------------------------------------------------------------ Scalar (num_traits::Float plus the bounds of Point::Scalar)
pub trait Scalar: Copy + PartialEq + PartialOrd + Default + From<NF> + Into<NF>
    + Add<Self, Output = Self> + Sub<Self, Output = Self> + Mul<Self, Output = Self> + Div<Self, Output = Self> + Neg<Output = Self>
    + Add<NF, Output = Self> + Sub<NF, Output = Self> + Mul<NF, Output = Self> + Div<NF, Output = Self>
{
    spec fn val(self) -> real;
    spec fn nan(self) -> bool;
    proof fn law_add(a: Self, b: Self) ensures <Self as AddSpec<Self>>::obeys_add_spec(), AddSpec::<Self>::add_req(a, b), fin_v(a.val(), a.nan()) && fin_v(b.val(), b.nan()) ==> fin_v(AddSpec::<Self>::add_spec(a, b).val(), AddSpec::<Self>::add_spec(a, b).nan());
    proof fn law_add_nf(a: Self, b: NF) ensures <Self as AddSpec<NF>>::obeys_add_spec(), AddSpec::<NF>::add_req(a, b), fin_v(a.val(), a.nan()) && nfin(b) ==> fin_v(AddSpec::<NF>::add_spec(a, b).val(), AddSpec::<NF>::add_spec(a, b).nan());
    proof fn law_sub(a: Self, b: Self) ensures <Self as SubSpec<Self>>::obeys_sub_spec(), SubSpec::<Self>::sub_req(a, b), fin_v(a.val(), a.nan()) && fin_v(b.val(), b.nan()) ==> fin_v(SubSpec::<Self>::sub_spec(a, b).val(), SubSpec::<Self>::sub_spec(a, b).nan());
    proof fn law_sub_nf(a: Self, b: NF) ensures <Self as SubSpec<NF>>::obeys_sub_spec(), SubSpec::<NF>::sub_req(a, b), fin_v(a.val(), a.nan()) && nfin(b) ==> fin_v(SubSpec::<NF>::sub_spec(a, b).val(), SubSpec::<NF>::sub_spec(a, b).nan());
    proof fn law_mul(a: Self, b: Self) ensures <Self as MulSpec<Self>>::obeys_mul_spec(), MulSpec::<Self>::mul_req(a, b), fin_v(a.val(), a.nan()) && fin_v(b.val(), b.nan()) ==> fin_v(MulSpec::<Self>::mul_spec(a, b).val(), MulSpec::<Self>::mul_spec(a, b).nan());
    proof fn law_mul_nf(a: Self, b: NF) ensures <Self as MulSpec<NF>>::obeys_mul_spec(), MulSpec::<NF>::mul_req(a, b), fin_v(a.val(), a.nan()) && nfin(b) ==> fin_v(MulSpec::<NF>::mul_spec(a, b).val(), MulSpec::<NF>::mul_spec(a, b).nan());
    proof fn law_div(a: Self, b: Self) ensures <Self as DivSpec<Self>>::obeys_div_spec(), DivSpec::<Self>::div_req(a, b), fin_v(a.val(), a.nan()) && fin_v(b.val(), b.nan()) && b.val() != 0real ==> !DivSpec::<Self>::div_spec(a, b).nan(),
        fin_v(a.val(), a.nan()) && fin_v(b.val(), b.nan()) && rabs(b.val()) >= eps() ==> fin_v(DivSpec::<Self>::div_spec(a, b).val(), DivSpec::<Self>::div_spec(a, b).nan());
    proof fn law_div_nf(a: Self, b: NF) ensures <Self as DivSpec<NF>>::obeys_div_spec(), DivSpec::<NF>::div_req(a, b), fin_v(a.val(), a.nan()) && nfin(b) && b.value() != 0real ==> !DivSpec::<NF>::div_spec(a, b).nan(),
        fin_v(a.val(), a.nan()) && nfin(b) && rabs(b.value()) >= eps() ==> fin_v(DivSpec::<NF>::div_spec(a, b).val(), DivSpec::<NF>::div_spec(a, b).nan());
    proof fn law_neg(a: Self) ensures <Self as NegSpec>::obeys_neg_spec(), NegSpec::neg_req(a), fin_v(a.val(), a.nan()) ==> fin_v(NegSpec::neg_spec(a).val(), NegSpec::neg_spec(a).nan());
    proof fn law_from(b: NF) ensures <Self as FromSpec<NF>>::obeys_from_spec(), <Self as FromSpec<NF>>::from_spec(b).val() == b.value(), <Self as FromSpec<NF>>::from_spec(b).nan() == b.isnan();
    proof fn law_into(a: Self) ensures <Self as IntoSpec<NF>>::obeys_into_spec(), <Self as IntoSpec<NF>>::into_spec(a).value() == a.val(), <Self as IntoSpec<NF>>::into_spec(a).isnan() == a.nan();
    proof fn law_cmp(a: Self, b: Self) ensures
        <Self as PartialOrdSpec<Self>>::obeys_partial_cmp_spec(), <Self as PartialEqSpec<Self>>::obeys_eq_spec(),
        PartialEqSpec::eq_spec(&a, &b) == (!a.nan() && !b.nan() && a.val() == b.val()),
        PartialOrdSpec::partial_cmp_spec(&a, &b) == (if !a.nan() && !b.nan() { Some(rcmp(a.val(), b.val())) } else { None });
    fn sqrt(self) -> (r: Self);
    fn abs(self) -> (r: Self) ensures !self.nan() ==> !r.nan() && r.val() == rabs(self.val());
    fn max(self, o: Self) -> (r: Self) ensures !self.nan() && !o.nan() ==> !r.nan() && r.val() == (if self.val() < o.val() { o.val() } else { self.val() });
    fn min(self, o: Self) -> (r: Self) ensures !self.nan() && !o.nan() ==> !r.nan() && r.val() == (if o.val() < self.val() { o.val() } else { self.val() });
    fn is_nan(self) -> (r: bool) ensures r == self.nan();
    fn epsilon() -> (r: Self) ensures r.val() == eps(), !r.nan();
    fn s_default() -> (r: Self) ensures r.val() == 0real, !r.nan();
}
/// not NaN
pub open spec fn num<S: Scalar>(x: S) -> bool { !x.nan() }
pub open spec fn fin<S: Scalar>(x: S) -> bool { fin_v(x.val(), x.nan()) }

/// TRUSTED: core's `impl From<T> for T` (and hence Into<T> for T) is the identity.
pub axiom fn axiom_reflexive_from(b: NF) ensures
    <NF as FromSpec<NF>>::obeys_from_spec(), <NF as FromSpec<NF>>::from_spec(b) == b, <NF as IntoSpec<NF>>::obeys_into_spec(), <NF as IntoSpec<NF>>::into_spec(b) == b;
/// NativeFloat is a Scalar.
impl Scalar for NF {
    open spec fn val(self) -> real { self.value() }
    open spec fn nan(self) -> bool { self.isnan() }
    proof fn law_add(a: Self, b: Self) { axiom_arith(a, b); } proof fn law_add_nf(a: Self, b: NF) { axiom_arith(a, b); }
    proof fn law_sub(a: Self, b: Self) { axiom_arith(a, b); } proof fn law_sub_nf(a: Self, b: NF) { axiom_arith(a, b); }
    proof fn law_mul(a: Self, b: Self) { axiom_arith(a, b); } proof fn law_mul_nf(a: Self, b: NF) { axiom_arith(a, b); }
    proof fn law_div(a: Self, b: Self) { axiom_arith(a, b); } proof fn law_div_nf(a: Self, b: NF) { axiom_arith(a, b); }
    proof fn law_neg(a: Self) { axiom_arith(a, a); }
    proof fn law_from(b: NF) { axiom_reflexive_from(b); } proof fn law_into(a: Self) { axiom_reflexive_from(a); } proof fn law_cmp(a: Self, b: Self) {}
    fn sqrt(self) -> (r: Self) { NF::sqrt(self) }
    fn abs(self) -> (r: Self) { NF::abs(self) }
    fn max(self, o: Self) -> (r: Self) { NF::max(self, o) }
    fn min(self, o: Self) -> (r: Self) { NF::min(self, o) }
    fn is_nan(self) -> (r: bool) { NF::is_nan(self) }
    fn epsilon() -> (r: Self) { nf_eps() }
    fn s_default() -> (r: Self) { NF::default() }
}

pub broadcast proof fn s_add_ob<S: Scalar>() ensures #[trigger] <S as AddSpec<S>>::obeys_add_spec() { S::law_add(arbitrary(), arbitrary()); }
pub broadcast proof fn s_add_req<S: Scalar>(a: S, b: S) ensures #[trigger] AddSpec::<S>::add_req(a, b) { S::law_add(a, b); }
pub broadcast proof fn s_add_val<S: Scalar>(a: S, b: S) requires fin(a), fin(b) ensures fin(#[trigger] AddSpec::<S>::add_spec(a, b)) { S::law_add(a, b); }
pub broadcast proof fn n_add_ob<S: Scalar>() ensures #[trigger] <S as AddSpec<NF>>::obeys_add_spec() { S::law_add_nf(arbitrary(), arbitrary()); }
pub broadcast proof fn n_add_req<S: Scalar>(a: S, b: NF) ensures #[trigger] AddSpec::<NF>::add_req(a, b) { S::law_add_nf(a, b); }
pub broadcast proof fn n_add_val<S: Scalar>(a: S, b: NF) requires fin(a), nfin(b) ensures fin(#[trigger] AddSpec::<NF>::add_spec(a, b)) { S::law_add_nf(a, b); }
pub broadcast proof fn s_sub_ob<S: Scalar>() ensures #[trigger] <S as SubSpec<S>>::obeys_sub_spec() { S::law_sub(arbitrary(), arbitrary()); }
pub broadcast proof fn s_sub_req<S: Scalar>(a: S, b: S) ensures #[trigger] SubSpec::<S>::sub_req(a, b) { S::law_sub(a, b); }
pub broadcast proof fn s_sub_val<S: Scalar>(a: S, b: S) requires fin(a), fin(b) ensures fin(#[trigger] SubSpec::<S>::sub_spec(a, b)) { S::law_sub(a, b); }
pub broadcast proof fn n_sub_ob<S: Scalar>() ensures #[trigger] <S as SubSpec<NF>>::obeys_sub_spec() { S::law_sub_nf(arbitrary(), arbitrary()); }
pub broadcast proof fn n_sub_req<S: Scalar>(a: S, b: NF) ensures #[trigger] SubSpec::<NF>::sub_req(a, b) { S::law_sub_nf(a, b); }
pub broadcast proof fn n_sub_val<S: Scalar>(a: S, b: NF) requires fin(a), nfin(b) ensures fin(#[trigger] SubSpec::<NF>::sub_spec(a, b)) { S::law_sub_nf(a, b); }
pub broadcast proof fn s_mul_ob<S: Scalar>() ensures #[trigger] <S as MulSpec<S>>::obeys_mul_spec() { S::law_mul(arbitrary(), arbitrary()); }
pub broadcast proof fn s_mul_req<S: Scalar>(a: S, b: S) ensures #[trigger] MulSpec::<S>::mul_req(a, b) { S::law_mul(a, b); }
pub broadcast proof fn s_mul_val<S: Scalar>(a: S, b: S) requires fin(a), fin(b) ensures fin(#[trigger] MulSpec::<S>::mul_spec(a, b)) { S::law_mul(a, b); }
pub broadcast proof fn n_mul_ob<S: Scalar>() ensures #[trigger] <S as MulSpec<NF>>::obeys_mul_spec() { S::law_mul_nf(arbitrary(), arbitrary()); }
pub broadcast proof fn n_mul_req<S: Scalar>(a: S, b: NF) ensures #[trigger] MulSpec::<NF>::mul_req(a, b) { S::law_mul_nf(a, b); }
pub broadcast proof fn n_mul_val<S: Scalar>(a: S, b: NF) requires fin(a), nfin(b) ensures fin(#[trigger] MulSpec::<NF>::mul_spec(a, b)) { S::law_mul_nf(a, b); }
pub broadcast proof fn s_div_ob<S: Scalar>() ensures #[trigger] <S as DivSpec<S>>::obeys_div_spec() { S::law_div(arbitrary(), arbitrary()); }
pub broadcast proof fn s_div_req<S: Scalar>(a: S, b: S) ensures #[trigger] DivSpec::<S>::div_req(a, b) { S::law_div(a, b); }
pub broadcast proof fn s_div_val<S: Scalar>(a: S, b: S) requires fin(a), fin(b), b.val() != 0real ensures !(#[trigger] DivSpec::<S>::div_spec(a, b)).nan(), rabs(b.val()) >= eps() ==> fin(DivSpec::<S>::div_spec(a, b)) { S::law_div(a, b); }
pub broadcast proof fn n_div_ob<S: Scalar>() ensures #[trigger] <S as DivSpec<NF>>::obeys_div_spec() { S::law_div_nf(arbitrary(), arbitrary()); }
pub broadcast proof fn n_div_req<S: Scalar>(a: S, b: NF) ensures #[trigger] DivSpec::<NF>::div_req(a, b) { S::law_div_nf(a, b); }
pub broadcast proof fn n_div_val<S: Scalar>(a: S, b: NF) requires fin(a), nfin(b), b.value() != 0real ensures !(#[trigger] DivSpec::<NF>::div_spec(a, b)).nan(), rabs(b.value()) >= eps() ==> fin(DivSpec::<NF>::div_spec(a, b)) { S::law_div_nf(a, b); }
pub broadcast proof fn s_neg_ob<S: Scalar>() ensures #[trigger] <S as NegSpec>::obeys_neg_spec() { S::law_neg(arbitrary()); }
pub broadcast proof fn s_neg_req<S: Scalar>(a: S) ensures #[trigger] NegSpec::neg_req(a) { S::law_neg(a); }
pub broadcast proof fn s_neg_val<S: Scalar>(a: S) requires fin(a) ensures fin(#[trigger] NegSpec::neg_spec(a)) { S::law_neg(a); }
pub broadcast proof fn s_from_ob<S: Scalar>() ensures #[trigger] <S as FromSpec<NF>>::obeys_from_spec() { S::law_from(nf_of(0real)); }
pub broadcast proof fn s_from_val<S: Scalar>(b: NF) ensures <S as FromSpec<NF>>::obeys_from_spec(), (#[trigger] <S as FromSpec<NF>>::from_spec(b)).val() == b.value(), <S as FromSpec<NF>>::from_spec(b).nan() == b.isnan() { S::law_from(b); }
pub broadcast proof fn s_into_ob<S: Scalar>() ensures #[trigger] <S as IntoSpec<NF>>::obeys_into_spec() { S::law_into(arbitrary()); }
pub broadcast proof fn s_into_val<S: Scalar>(a: S) ensures <S as IntoSpec<NF>>::obeys_into_spec(), (#[trigger] <S as IntoSpec<NF>>::into_spec(a)).value() == a.val(), <S as IntoSpec<NF>>::into_spec(a).isnan() == a.nan() { S::law_into(a); }
pub broadcast proof fn s_eq_ob<S: Scalar>() ensures #[trigger] <S as PartialEqSpec<S>>::obeys_eq_spec() { S::law_cmp(arbitrary(), arbitrary()); }
pub broadcast proof fn s_eq_val<S: Scalar>(a: S, b: S) ensures <S as PartialEqSpec<S>>::obeys_eq_spec(), #[trigger] PartialEqSpec::eq_spec(&a, &b) == (num(a) && num(b) && a.val() == b.val()) { S::law_cmp(a, b); }
pub broadcast proof fn s_cmp_ob<S: Scalar>() ensures #[trigger] <S as PartialOrdSpec<S>>::obeys_partial_cmp_spec() { S::law_cmp(arbitrary(), arbitrary()); }
pub broadcast proof fn s_cmp_val<S: Scalar>(a: S, b: S) ensures <S as PartialOrdSpec<S>>::obeys_partial_cmp_spec(), #[trigger] PartialOrdSpec::partial_cmp_spec(&a, &b) == (if num(a) && num(b) { Some(rcmp(a.val(), b.val())) } else { None::<core::cmp::Ordering> }) { S::law_cmp(a, b); }
pub broadcast proof fn nf_arith_add(a: NF, b: NF) requires nfin(a), nfin(b) ensures nfin(#[trigger] fp_add(a, b)) { axiom_arith(a, b); }
pub broadcast proof fn nf_arith_sub(a: NF, b: NF) requires nfin(a), nfin(b) ensures nfin(#[trigger] fp_sub(a, b)) { axiom_arith(a, b); }
pub broadcast proof fn nf_arith_mul(a: NF, b: NF) requires nfin(a), nfin(b) ensures nfin(#[trigger] fp_mul(a, b)) { axiom_arith(a, b); }
pub broadcast proof fn nf_arith_neg(a: NF) requires nfin(a) ensures nfin(#[trigger] fp_neg(a)) { axiom_arith(a, a); }
pub broadcast proof fn num_fin01<S: Scalar>(a: S) requires num(a), 0real <= a.val() <= 1real ensures #[trigger] fin(a) { axiom_big(); }
pub broadcast group scalar_laws { s_add_ob, s_add_req, s_add_val, n_add_ob, n_add_req, n_add_val, s_sub_ob, s_sub_req, s_sub_val, n_sub_ob, n_sub_req, n_sub_val, s_mul_ob, s_mul_req, s_mul_val, n_mul_ob, n_mul_req, n_mul_val, s_div_ob, s_div_req, s_div_val, n_div_ob, n_div_req, n_div_val, s_neg_ob, s_neg_req, s_neg_val, s_from_ob, s_from_val, s_into_ob, s_into_val, s_eq_ob, s_eq_val, s_cmp_ob, s_cmp_val, nf_arith_add, nf_arith_sub, nf_arith_mul, nf_arith_neg, num_fin01 }

// ------------------------------------------------------------ Point
pub trait Point: Sized + Copy + PartialEq + Default + Add<Self, Output = Self> + Sub<Self, Output = Self> + Mul<<Self as Point>::Scalar, Output = Self> + Mul<NF, Output = Self> {
    type Scalar: Scalar;
    spec fn dim() -> nat;
    /// every component is finite
    spec fn finite(self) -> bool;
    proof fn law_add(a: Self, b: Self) ensures <Self as AddSpec<Self>>::obeys_add_spec(), AddSpec::add_req(a, b), a.finite() && b.finite() ==> AddSpec::add_spec(a, b).finite();
    proof fn law_sub(a: Self, b: Self) ensures <Self as SubSpec<Self>>::obeys_sub_spec(), SubSpec::sub_req(a, b), a.finite() && b.finite() ==> SubSpec::sub_spec(a, b).finite();
    proof fn law_mul(a: Self, b: Self::Scalar) ensures <Self as MulSpec<Self::Scalar>>::obeys_mul_spec(), MulSpec::mul_req(a, b), a.finite() && fin(b) ==> MulSpec::mul_spec(a, b).finite();
    proof fn law_mul_nf(a: Self, b: NF) ensures <Self as MulSpec<NF>>::obeys_mul_spec(), MulSpec::mul_req(a, b), a.finite() && nfin(b) ==> MulSpec::mul_spec(a, b).finite();
    proof fn law_eq() ensures <Self as PartialEqSpec<Self>>::obeys_eq_spec();
    fn dim_exec() -> (r: usize) ensures r == Self::dim();
    fn axis(&self, index: usize) -> (r: Self::Scalar) requires index < Self::dim() ensures self.finite() ==> fin(r);
    fn squared_length(&self) -> (r: Self::Scalar) ensures self.finite() ==> fin(r);
}
pub broadcast proof fn p_add_ob<S: Point>() ensures #[trigger] <S as AddSpec<S>>::obeys_add_spec() { S::law_add(arbitrary(), arbitrary()); }
pub broadcast proof fn p_add_req<S: Point>(a: S, b: S) ensures #[trigger] AddSpec::<S>::add_req(a, b) { S::law_add(a, b); }
pub broadcast proof fn p_add_val<S: Point>(a: S, b: S) requires a.finite(), b.finite() ensures (#[trigger] AddSpec::<S>::add_spec(a, b)).finite() { S::law_add(a, b); }
pub broadcast proof fn p_sub_ob<S: Point>() ensures #[trigger] <S as SubSpec<S>>::obeys_sub_spec() { S::law_sub(arbitrary(), arbitrary()); }
pub broadcast proof fn p_sub_req<S: Point>(a: S, b: S) ensures #[trigger] SubSpec::<S>::sub_req(a, b) { S::law_sub(a, b); }
pub broadcast proof fn p_sub_val<S: Point>(a: S, b: S) requires a.finite(), b.finite() ensures (#[trigger] SubSpec::<S>::sub_spec(a, b)).finite() { S::law_sub(a, b); }
pub broadcast proof fn p_mul_ob<S: Point>() ensures #[trigger] <S as MulSpec<S::Scalar>>::obeys_mul_spec() { S::law_mul(arbitrary(), arbitrary()); }
pub broadcast proof fn p_mul_req<S: Point>(a: S, b: S::Scalar) ensures #[trigger] MulSpec::<S::Scalar>::mul_req(a, b) { S::law_mul(a, b); }
pub broadcast proof fn p_mul_val<S: Point>(a: S, b: S::Scalar) requires a.finite(), fin(b) ensures (#[trigger] MulSpec::<S::Scalar>::mul_spec(a, b)).finite() { S::law_mul(a, b); }
pub broadcast proof fn p_muln_ob<S: Point>() ensures #[trigger] <S as MulSpec<NF>>::obeys_mul_spec() { S::law_mul_nf(arbitrary(), arbitrary()); }
pub broadcast proof fn p_muln_req<S: Point>(a: S, b: NF) ensures #[trigger] MulSpec::<NF>::mul_req(a, b) { S::law_mul_nf(a, b); }
pub broadcast proof fn p_muln_val<S: Point>(a: S, b: NF) requires a.finite(), nfin(b) ensures (#[trigger] MulSpec::<NF>::mul_spec(a, b)).finite() { S::law_mul_nf(a, b); }
pub broadcast proof fn p_eq_ob<S: Point>() ensures #[trigger] <S as PartialEqSpec<S>>::obeys_eq_spec() { S::law_eq(); }
pub broadcast group point_laws { p_eq_ob, p_add_ob, p_add_req, p_add_val, p_sub_ob, p_sub_req, p_sub_val, p_mul_ob, p_mul_req, p_mul_val, p_muln_ob, p_muln_req, p_muln_val }

} // verus!
