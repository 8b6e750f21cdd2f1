"""PointN (C18) and stored data (C19)."""
from basic import CT, CURVES
import bez

SPEC_ITER = """
// TRUSTED: core's iterators over an array visit its elements in order, each exactly once; `over` names that sequence.
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ArrIter<T> { t: core::marker::PhantomData<T> }
impl<T> ArrIter<T> { pub uninterp spec fn over(self) -> Seq<T>; pub uninterp spec fn mutable(self) -> bool; }
#[verifier::external_body] pub fn arr_iter<T, const N: usize>(a: &[T; N]) -> (r: ArrIter<T>) ensures r.over() == a@ { unimplemented!() }
#[verifier::external_body] pub fn arr_into_iter<T, const N: usize>(a: [T; N]) -> (r: ArrIter<T>) ensures r.over() == a@ { unimplemented!() }
/// the iterator borrows the array itself, so what is written through it is written to the array
#[verifier::external_body] pub fn arr_iter_mut<T, const N: usize>(a: &mut [T; N]) -> (r: ArrIter<T>) ensures r.over() == old(a)@, r.mutable() { unimplemented!() }
"""
SPEC_PTS = """
#[derive(Copy, Clone)]
pub struct PointN<T, const N: usize>(pub [T; N]);
"""
SPEC_PT = SPEC_ITER + SPEC_PTS + """
pub open spec fn psum(f: spec_fn(int) -> real, n: nat) -> real decreases n { if n == 0 { 0real } else { psum(f, (n - 1) as nat) + f(n - 1) } }
/// for plain numbers this is the sum of squares
pub proof fn psum_sq(f: spec_fn(int) -> real, g: spec_fn(int) -> real, n: nat) requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i) * g(i) ensures psum(f, n) == sqsum(g, n) decreases n
{ if n > 0 { psum_sq(f, g, (n - 1) as nat); } }
"""
CT["PointN::new"] = dict(params=["array"], ensures="ret.0 == array")
CT["PointN::default"] = dict(src="Default for PointN::default", inherent=True, rename="p_default", ensures="exists|d: T| call_ensures(T::default, (), d) && forall|i: int| 0 <= i < N ==> #[trigger] ret.0@[i] == d")

OWN = dict(kind="for", before="let ghost same0 = res@ =~= self.0@;", inv="same0 ==> forall|k: int| $i <= k < N ==> #[trigger] res@[k] == self.0@[k]")


def binop(key, name, tr, rhs, item, sec):
    t = tr.lower()
    CT[key] = dict(
        src=f"{key}", inherent=True, rename=name, params=["other"], muts=["res"], ret_type="PointN<T, N>",
        requires=f"<T as {tr}Spec<{rhs}>>::obeys_{t}_spec(), forall|k: int| 0 <= k < N ==> {tr}Spec::<{rhs}>::{t}_req(#[trigger] self.0@[k], {item('k')})",
        ensures=f"forall|k: int| 0 <= k < N ==> #[trigger] ret.0@[k] == {tr}Spec::<{rhs}>::{t}_spec(self.0@[k], {item('k')})",
        loops={0: dict(kind="for", inv=f"forall|k: int| 0 <= k < $i ==> #[trigger] res.0@[k] == {tr}Spec::<{rhs}>::{t}_spec(self.0@[k], {item('k')}), forall|k: int| $i <= k < N ==> #[trigger] res.0@[k] == self.0@[k]")},
        # the numbers computed in an array of their own
        alts=[dict(shape=["for 0 .."], mk={"res": "arr:T"}, tys={"res": "[T; N]"}, loops={0: dict(OWN, inv=f"forall|k: int| 0 <= k < $i ==> #[trigger] res@[k] == {tr}Spec::<{rhs}>::{t}_spec(self.0@[k], {item('k')}), " + OWN["inv"])})])


binop("Add for PointN::add", "add_point", "Add", "T", lambda k: f"other.0@[{k}]", None)
binop("Sub for PointN::sub", "sub_point", "Sub", "T", lambda k: f"other.0@[{k}]", None)
binop("Add<T> for PointN::add", "add_scalar", "Add", "T", lambda k: "other", None)
binop("Sub<T> for PointN::sub", "sub_scalar", "Sub", "T", lambda k: "other", None)
binop("Mul<U> for PointN::mul", "mul_scalar", "Mul", "U", lambda k: "other", None)
CT["Mul<U> for PointN::mul"].update(inherent=False, impl_head="impl<T, const N: usize> PointN<T, N>", generics=["U"], where="T: Mul<U, Output = T> + Clone + Copy, U: Clone + Copy")
CT["PartialEq for PointN::eq"] = dict(
    inherent=True, rename="eq_point", params=["other"],
    requires="<T as PartialEqSpec<T>>::obeys_eq_spec()",
    ensures="ret == (forall|k: int| 0 <= k < N ==> PartialEqSpec::<T>::eq_spec(&#[trigger] self.0@[k], &other.0@[k]))",
    loops={0: dict(kind="for", inv="forall|k: int| 0 <= k < $i ==> PartialEqSpec::<T>::eq_spec(&#[trigger] self.0@[k], &other.0@[k])")},
    alts=[dict(shape=["for 0 .. [1]"], muts=["same"], loops={0: dict(kind="for", inv="same == (forall|k: int| 0 <= k < $i ==> PartialEqSpec::<T>::eq_spec(&#[trigger] self.0@[k], &other.0@[k]))")})])
NUM = "impl<T: Copy + Mul<T, Output = T> + Into<NF>, const N: usize> PointN<T, N>"
CT["Point for PointN::axis"] = dict(
    impl_head=NUM, params=["index"], ret_type="NF", requires="index < N, <T as IntoSpec<NF>>::obeys_into_spec()",
    ensures="ret == <T as IntoSpec<NF>>::into_spec(self.0@[index as int])")
# over the laws of Scalar: a conversion keeps the value, so it does not matter whether it comes before or after the product
SQV = "self.0@[k].val() * self.0@[k].val()"
CT["Point for PointN::squared_length"] = dict(
    impl_head="impl<T: Scalar, const N: usize> PointN<T, N>", ret_type="NF", muts=["sqr_dist"], requires="",
    ensures=f"ret.value() == psum(|k: int| {SQV}, N as nat)",
    loops={0: dict(kind="for", inv=f"sqr_dist.value() == psum(|k: int| {SQV}, $i as nat)")})
CT["Point for PointN::DIM"] = dict(inherent=True, impl_head="impl<T, const N: usize> PointN<T, N>", rename="dim_const", ensures="ret == N")
ITER = dict(iters=True, rename="iter_all")
CT["IntoIterator for PointN::into_iter"] = dict(iters=True, inherent=True, ret_type="ArrIter<T>", ensures="ret.over() == self.0@")
CT["IntoIterator for &mut PointN::into_iter"] = dict(iters=True, impl_head="impl<T, const N: usize> PointN<T, N>", rename="into_iter_mut", self_param="&mut self", ret_type="ArrIter<T>",
                                                    ensures="ret.over() == old(self).0@, ret.mutable()")
PT = ["PointN::new", "PointN::default", "Add for PointN::add", "Sub for PointN::sub", "Add<T> for PointN::add", "Sub<T> for PointN::sub", "Mul<U> for PointN::mul", "PartialEq for PointN::eq",
      "Point for PointN::DIM", "Point for PointN::axis", "Point for PointN::squared_length", "IntoIterator for PointN::into_iter", "IntoIterator for &mut PointN::into_iter"]

# ------------------------------------------------------------------ C19
CT["IntoIterator for Bezier::into_iter"] = dict(iters=True, inherent=True, ret_type="ArrIter<P>", ensures="ret.over() == self.control_points@")
CT["IntoIterator for &mut Bezier::into_iter"] = dict(iters=True, impl_head="impl<P: Point, const N: usize> Bezier<P, N>", rename="into_iter_mut", self_param="&mut self", ret_type="ArrIter<P>",
                                                    ensures="ret.over() == old(self).control_points@, ret.mutable()")

CT["BSpline::control_points"] = dict(iters=True, ret_type="ArrIter<P>", ensures="ret.over() == self.control_points@")
CT["BSpline::knots"] = dict(iters=True, ret_type="ArrIter<P::Scalar>", ensures="ret.over() == self.knots@")
STORE = ["LineSegment::new", "QuadraticBezier::new", "QuadraticBezier::control_points", "CubicBezier::new", "CubicBezier::control_points", "Bezier::new", "Bezier::control_points",
         "IntoIterator for Bezier::into_iter", "IntoIterator for &mut Bezier::into_iter", "BSpline::new", "BSpline::control_points", "BSpline::knots", "BezierSegment::start", "BezierSegment::end",
         "BezierSegment::from_LineSegment", "BezierSegment::from_QuadraticBezier", "BezierSegment::from_CubicBezier"]

SPEC_INST = r"""
// PointN over any Scalar is an instance of the trait Point the curves are verified against: every law of that trait follows
// from the contracts of PointN's own functions.
pub open spec fn is_arr<T, const N: usize>(a: [T; N], f: spec_fn(int) -> T) -> bool { forall|i: int| 0 <= i < N ==> #[trigger] a@[i] == f(i) }
pub open spec fn arr_of<T, const N: usize>(f: spec_fn(int) -> T) -> [T; N] { choose|a: [T; N]| #[trigger] is_arr(a, f) }
pub proof fn arr_is<T, const N: usize>(a: [T; N], f: spec_fn(int) -> T) requires is_arr(a, f) ensures a == arr_of::<T, N>(f)
{ let b = arr_of::<T, N>(f); assert(is_arr(b, f)); assert(a@ =~= b@); assert(a =~= b); }
/// TRUSTED: every function on 0..N is an array's contents.
pub axiom fn arr_any<T, const N: usize>(f: spec_fn(int) -> T) ensures exists|a: [T; N]| #[trigger] is_arr(a, f);
impl<T: Default + Copy, const N: usize> Default for PointN<T, N> { fn default() -> Self { PointN::p_default() } }
impl<T: Scalar, const N: usize> AddSpecImpl<PointN<T, N>> for PointN<T, N> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Self) -> bool { true }
    open spec fn add_spec(self, o: Self) -> Self { PointN(arr_of(|k: int| AddSpec::<T>::add_spec(self.0@[k], o.0@[k]))) }
}
impl<T: Scalar, const N: usize> Add<PointN<T, N>> for PointN<T, N> {
    type Output = PointN<T, N>;
    fn add(self, o: PointN<T, N>) -> (r: PointN<T, N>) {
        broadcast use scalar_laws;
        let r = self.add_point(o);
        proof { arr_is(r.0, |k: int| AddSpec::<T>::add_spec(self.0@[k], o.0@[k])); }
        r
    }
}
impl<T: Scalar, const N: usize> SubSpecImpl<PointN<T, N>> for PointN<T, N> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Self) -> bool { true }
    open spec fn sub_spec(self, o: Self) -> Self { PointN(arr_of(|k: int| SubSpec::<T>::sub_spec(self.0@[k], o.0@[k]))) }
}
impl<T: Scalar, const N: usize> Sub<PointN<T, N>> for PointN<T, N> {
    type Output = PointN<T, N>;
    fn sub(self, o: PointN<T, N>) -> (r: PointN<T, N>) {
        broadcast use scalar_laws;
        let r = self.sub_point(o);
        proof { arr_is(r.0, |k: int| SubSpec::<T>::sub_spec(self.0@[k], o.0@[k])); }
        r
    }
}
impl<T: Scalar + Mul<U, Output = T>, U: Copy, const N: usize> MulSpecImpl<U> for PointN<T, N> {
    open spec fn obeys_mul_spec() -> bool { <T as MulSpec<U>>::obeys_mul_spec() }
    open spec fn mul_req(self, o: U) -> bool { <T as MulSpec<U>>::obeys_mul_spec() && forall|k: int| 0 <= k < N ==> MulSpec::<U>::mul_req(#[trigger] self.0@[k], o) }
    open spec fn mul_spec(self, o: U) -> Self { PointN(arr_of(|k: int| MulSpec::<U>::mul_spec(self.0@[k], o))) }
}
impl<T: Scalar + Mul<U, Output = T>, U: Copy, const N: usize> Mul<U> for PointN<T, N> {
    type Output = PointN<T, N>;
    fn mul(self, o: U) -> (r: PointN<T, N>) {
        let r = self.mul_scalar(o);
        proof { arr_is(r.0, |k: int| MulSpec::<U>::mul_spec(self.0@[k], o)); }
        r
    }
}
impl<T: Scalar, const N: usize> PartialEqSpecImpl for PointN<T, N> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { forall|k: int| 0 <= k < N ==> #[trigger] self.0@[k].val() == o.0@[k].val() }
}
impl<T: Scalar, const N: usize> PartialEq for PointN<T, N> {
    fn eq(&self, o: &Self) -> (r: bool) { broadcast use scalar_laws; PointN::eq_point(self, o) }
}
impl<T: Scalar, const N: usize> Point for PointN<T, N> {
    type Scalar = NF;
    open spec fn c(self, i: int) -> real { if 0 <= i < N { self.0@[i].val() } else { 0real } }
    open spec fn dim() -> nat { N as nat }
    open spec fn sqlen(self) -> real { sqsum(|i: int| self.c(i), N as nat) }
    proof fn law_sqlen(a: Self) {}
    proof fn law_add(a: Self, b: Self) {
        broadcast use scalar_laws;
        let f = |k: int| AddSpec::<T>::add_spec(a.0@[k], b.0@[k]);
        arr_any::<T, N>(f); let r = AddSpec::add_spec(a, b); assert(is_arr(r.0, f));
        assert forall|i: int| (#[trigger] r.c(i)) == a.c(i) + b.c(i) by { if 0 <= i < N { assert(r.0@[i] == f(i)); } }
    }
    proof fn law_sub(a: Self, b: Self) {
        broadcast use scalar_laws;
        let f = |k: int| SubSpec::<T>::sub_spec(a.0@[k], b.0@[k]);
        arr_any::<T, N>(f); let r = SubSpec::sub_spec(a, b); assert(is_arr(r.0, f));
        assert forall|i: int| (#[trigger] r.c(i)) == a.c(i) - b.c(i) by { if 0 <= i < N { assert(r.0@[i] == f(i)); } }
    }
    proof fn law_mul(a: Self, b: NF) { Self::law_mul_nf(a, b); }
    proof fn law_mul_nf(a: Self, b: NF) {
        broadcast use scalar_laws;
        let f = |k: int| MulSpec::<NF>::mul_spec(a.0@[k], b);
        arr_any::<T, N>(f); let r = MulSpec::<NF>::mul_spec(a, b); assert(is_arr(r.0, f));
        assert forall|i: int| (#[trigger] r.c(i)) == a.c(i) * b.value() by { if 0 <= i < N { assert(r.0@[i] == f(i)); } }
    }
    proof fn law_eq(a: Self, b: Self) {
        if forall|i: int| #[trigger] a.c(i) == b.c(i) { assert forall|k: int| 0 <= k < N implies #[trigger] a.0@[k].val() == b.0@[k].val() by { assert(a.c(k) == b.c(k)); } }
    }
    fn dim_exec() -> (r: usize) { PointN::<T, N>::dim_const() }
    fn axis(&self, index: usize) -> (r: NF) { broadcast use scalar_laws; PointN::axis(self, index) }
    fn squared_length(&self) -> (r: NF) {
        broadcast use scalar_laws;
        proof {
            psum_sq(|k: int| self.0@[k].val() * self.0@[k].val(), |k: int| self.c(k), N as nat);
        }
        PointN::squared_length(self)
    }
}
"""
