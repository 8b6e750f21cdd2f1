// ArrayVec<[T; CAP]> of tinyvec: a list of at most CAP values.  Bodies are verified, except sort_by (contract assumed).
pub struct AVec<T, const CAP: usize> { pub v: Vec<T> }
impl<T, const CAP: usize> View for AVec<T, CAP> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.v@ } }
impl<T: Copy, const CAP: usize> AVec<T, CAP> {
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { AVec { v: Vec::new() } }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
    /// panics when full
    pub fn push(&mut self, x: T) requires old(self)@.len() < CAP ensures final(self)@ == old(self)@.push(x) { self.v.push(x); }
    pub fn get(&self, i: usize) -> (r: T) requires i < self@.len() ensures r == self@[i as int] { self.v[i] }
    pub fn set(&mut self, i: usize, x: T) requires i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, x) { self.v.set(i, x); }
    /// panics when the elements do not fit
    pub fn extend_from<const M: usize>(&mut self, o: AVec<T, M>) requires old(self)@.len() + o@.len() <= CAP ensures final(self)@ == old(self)@ + o@ {
        let mut k: usize = 0;
        while k < o.v.len()
            invariant k <= o@.len(), self@ == old(self)@ + o@.take(k as int),
            decreases o@.len() - k,
        {
            self.v.push(o.v[k]);
            proof { assert(o@.take(k + 1) == o@.take(k as int).push(o@[k as int])); }
            k = k + 1;
        }
        proof { assert(o@.take(k as int) == o@); }
    }
    pub fn last(&self) -> (r: Option<&T>) ensures self@.len() == 0 ==> r.is_none(), self@.len() > 0 ==> r.is_some() && *r.unwrap() == self@.last() {
        if self.v.len() == 0 { None } else { Some(&self.v[self.v.len() - 1]) }
    }
    pub fn first(&self) -> (r: Option<&T>) ensures self@.len() == 0 ==> r.is_none(), self@.len() > 0 ==> r.is_some() && *r.unwrap() == self@[0] {
        if self.v.len() == 0 { None } else { Some(&self.v[0]) }
    }
}
impl<S: Scalar, const CAP: usize> AVec<S, CAP> {
    /// TRUSTED: core's slice::sort_unstable_by with a total order puts the values in order and keeps them.
    #[verifier::external_body]
    pub fn sort_by<F: Fn(&S, &S) -> core::cmp::Ordering>(&mut self, f: F)
        requires
            forall|i: int| 0 <= i < old(self)@.len() ==> num(#[trigger] old(self)@[i]),
            forall|a: &S, b: &S| num(*a) && num(*b) ==> f.requires((a, b)),
            forall|a: &S, b: &S, o: core::cmp::Ordering| f.ensures((a, b), o) ==> o == rcmp(a.val(), b.val()),
        ensures
            final(self)@.len() == old(self)@.len(),
            forall|i: int, j: int| 0 <= i <= j < final(self)@.len() ==> (#[trigger] final(self)@[i]).val() <= (#[trigger] final(self)@[j]).val(),
            forall|i: int| 0 <= i < final(self)@.len() ==> old(self)@.contains(#[trigger] final(self)@[i]),
            forall|i: int| 0 <= i < old(self)@.len() ==> final(self)@.contains(#[trigger] old(self)@[i]),
    { unimplemented!() }
}
