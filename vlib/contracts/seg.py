"""End points and ranges (C05), Bezier segments (C17)."""
import ring as RG
from basic import CT, CURVES, DEFS, LEMMAS, co
import bez
import metric

# ------------------------------------------------------------------ C05
SPEC_RANGE = """
/// smallest and largest of f(0..=n)
pub open spec fn fmin(f: spec_fn(int) -> real, n: nat) -> real decreases n { if n == 0 { f(0) } else { rmin(fmin(f, (n - 1) as nat), f(n as int)) } }
pub open spec fn fmax(f: spec_fn(int) -> real, n: nat) -> real decreases n { if n == 0 { f(0) } else { rmax(fmax(f, (n - 1) as nat), f(n as int)) } }
pub proof fn fminmax(f: spec_fn(int) -> real, n: nat, k: int) requires 0 <= k <= n ensures fmin(f, n) <= f(k) <= fmax(f, n) decreases n
{ if n > 0 && k < n { fminmax(f, (n - 1) as nat, k); } }
"""
MIN = {2: "rmin({0}, {1})", 3: "rmin(rmin({0}, {1}), {2})", 4: "rmin(rmin(rmin({0}, {1}), {2}), {3})"}


def between(fl, x, i="i__"):
    a = co(fl, i)
    lo = MIN[len(a)].format(*a)
    return f"{lo} <= {x} <= {lo.replace('rmin', 'rmax')}"


def L_range(fn, n):
    def f(ring):
        ps = list("abcd"[:n])
        P = ", ".join(ps)
        tri = {"lin": f"lin({P}, t)", "quad": f"q1({P}, t)", "cub": f"c1({P}, t)"}[fn]
        o = "" if fn == "lin" else RG.spec_lemma(ring, DEFS, f"tri_{fn}", ps + ["t"], f"{fn}({','.join(ps)},t)", tri.replace(" ", ""))
        lo = MIN[n].format(*ps)
        hi = lo.replace("rmin", "rmax")
        steps = ""
        lv = list(ps)
        for r in range(n - 1):
            for j in range(len(lv) - 1):
                steps += f" conv({lv[j]}, {lv[j+1]}, t, lo, hi);"
            lv = [f"lin({lv[j]}, {lv[j+1]}, t)" for j in range(len(lv) - 1)]
            # the triangle's named inner nodes
        o += (f"pub proof fn range_{fn}({', '.join(p + ': real' for p in ps)}, t: real)\n    requires 0real <= t <= 1real,\n"
              f"    ensures {lo} <= {fn}({P}, t) <= {hi},\n{{ let lo = {lo}; let hi = {hi}; {'' if fn == 'lin' else f'tri_{fn}({P}, t);'}{steps} }}\n")
        return o
    return f


for fn, n in (("lin", 2), ("quad", 3), ("cub", 4)):
    LEMMAS["range_" + fn] = L_range(fn, n)

C05 = {}
for T, (fn, fl) in CURVES.items():
    A = ", ".join(co(fl, "i__"))
    for m in ("eval", "eval_casteljau"):
        if f"{T}::{m}" not in CT:
            continue
        C05[f"{T}::{m}"] = dict(
            ensures=f"t.val() == 0real ==> forall|i__: int| 0 <= i__ < P::dim() ==> #[trigger] ret.c(i__) == self.{fl[0]}.c(i__), "
                    f"t.val() == 1real ==> forall|i__: int| 0 <= i__ < P::dim() ==> #[trigger] ret.c(i__) == self.{fl[-1]}.c(i__), "
                    f"0real <= t.val() <= 1real ==> forall|i__: int| 0 <= i__ < P::dim() ==> {between(fl, '#[trigger] ret.c(i__)')}",
            tail=f" assert forall|i__: int| 0 <= i__ < P::dim() implies #[trigger] r__.c(i__) == {fn}({A}, t.val()) && (t.val() == 0real ==> r__.c(i__) == self.{fl[0]}.c(i__)) && (t.val() == 1real ==> r__.c(i__) == self.{fl[-1]}.c(i__))"
                 f" && (0real <= t.val() <= 1real ==> {between(fl, 'r__.c(i__)')}) by {{ {fn}_at0({A}); {fn}_at1({A}); if 0real <= t.val() <= 1real {{ range_{fn}({A}, t.val()); }} }}",
            lemmas=["at01", "range_" + fn])
C05["Bezier::eval"] = dict(
    ensures="t.val() == 0real ==> forall|a: int| #[trigger] ret.c(a) == self.control_points@[0].c(a), "
            "t.val() == 1real ==> forall|a: int| #[trigger] ret.c(a) == self.control_points@[N - 1].c(a), "
            "0real <= t.val() <= 1real ==> forall|a: int| fmin(bz(self.control_points, a), (N - 1) as nat) <= #[trigger] ret.c(a) <= fmax(bz(self.control_points, a), (N - 1) as nat)",
    tail="""
        assert forall|a: int| #![trigger r__.c(a)] (t.val() == 0real ==> r__.c(a) == self.control_points@[0].c(a)) && (t.val() == 1real ==> r__.c(a) == self.control_points@[N - 1].c(a))
            && (0real <= t.val() <= 1real ==> fmin(bz(self.control_points, a), (N - 1) as nat) <= r__.c(a) <= fmax(bz(self.control_points, a), (N - 1) as nat)) by {
            let f = bz(self.control_points, a);
            let n = (N - 1) as nat;
            assert(r__.c(a) == dc(f, t.val(), n, 0)) by { dc_bsum(f, t.val(), n, 0); bsum_bernstein(f, n, t.val(), N as nat); }
            dc_at0(f, n, 0); dc_at1(f, n, 0);
            if 0real <= t.val() <= 1real {
                assert forall|k: int| 0 <= k <= n implies fmin(f, n) <= #[trigger] f(k) <= fmax(f, n) by { fminmax(f, n, k); }
                dc_range(f, t.val(), n, 0, fmin(f, n), fmax(f, n));
            }
        }""")

# ------------------------------------------------------------------ C17
SPEC_SEG = """
pub open spec fn seg_cv<P: Point>(s: BezierSegment<P>) -> Cv { match s { BezierSegment::Linear(l) => line_cv(l.start, l.end), BezierSegment::Quadratic(q) => quad_cv(q), BezierSegment::Cubic(c) => cub_cv(c) } }
pub open spec fn seg_start<P: Point>(s: BezierSegment<P>) -> P { match s { BezierSegment::Linear(l) => l.start, BezierSegment::Quadratic(q) => q.start, BezierSegment::Cubic(c) => c.start } }
pub open spec fn seg_end<P: Point>(s: BezierSegment<P>) -> P { match s { BezierSegment::Linear(l) => l.end, BezierSegment::Quadratic(q) => q.end, BezierSegment::Cubic(c) => c.end } }
pub open spec fn same_kind<P: Point>(s: BezierSegment<P>, r: BezierSegment<P>) -> bool { (s is Linear) == (r is Linear) && (s is Quadratic) == (r is Quadratic) && (s is Cubic) == (r is Cubic) }
pub open spec fn seg_min_pt<P: Point>(s: BezierSegment<P>, i: int) -> real { match s { BezierSegment::Linear(l) => rmin(l.start.c(i), l.end.c(i)), BezierSegment::Quadratic(q) => rmin(rmin(q.start.c(i), q.ctrl.c(i)), q.end.c(i)), BezierSegment::Cubic(c) => rmin(rmin(rmin(c.start.c(i), c.ctrl1.c(i)), c.ctrl2.c(i)), c.end.c(i)) } }
pub open spec fn seg_max_pt<P: Point>(s: BezierSegment<P>, i: int) -> real { match s { BezierSegment::Linear(l) => rmax(l.start.c(i), l.end.c(i)), BezierSegment::Quadratic(q) => rmax(rmax(q.start.c(i), q.ctrl.c(i)), q.end.c(i)), BezierSegment::Cubic(c) => rmax(rmax(rmax(c.start.c(i), c.ctrl1.c(i)), c.ctrl2.c(i)), c.end.c(i)) } }
"""
CT["BezierSegment::eval"] = dict(params=["t"], ensures="on(ret, seg_cv(*self), t.val())")
CT["BezierSegment::start"] = dict(ensures="ret == seg_start(*self)")
CT["BezierSegment::end"] = dict(ensures="ret == seg_end(*self)")
CT["BezierSegment::baseline"] = dict(ensures="ret.start == seg_start(*self), ret.end == seg_end(*self)")
INTO = "F: Copy + Into<P::Scalar>"
OB = "<F as IntoSpec<P::Scalar>>::obeys_into_spec()"


def tv(x):
    return f"<F as IntoSpec<P::Scalar>>::into_spec({x}).val()"


CT["BezierSegment::is_linear"] = dict(
    params=["tolerance"], where=INTO, requires=OB,
    ensures="self is Linear ==> ret, "
            "self is Quadratic ==> ret == (dist2(self->Quadratic_0.start, self->Quadratic_0.end) >= eps() && near_seg(self->Quadratic_0.start, self->Quadratic_0.end, self->Quadratic_0.ctrl, TOL)), "
            "self is Cubic ==> ret == (dist2(self->Cubic_0.start, self->Cubic_0.end) >= eps() && near_seg(self->Cubic_0.start, self->Cubic_0.end, self->Cubic_0.ctrl1, TOL) && near_seg(self->Cubic_0.start, self->Cubic_0.end, self->Cubic_0.ctrl2, TOL))".replace("TOL", tv("tolerance")).replace("TOL", tv("tolerance")))
CT["BezierSegment::is_linear"]["ensures"] = CT["BezierSegment::is_linear"]["ensures"].replace("TOL", tv("tolerance"))
CT["BezierSegment::split"] = dict(
    params=["t"], where=INTO, requires=OB,
    ensures="same_kind(*self, ret.0), same_kind(*self, ret.1), seg_start(ret.0) == seg_start(*self), seg_end(ret.1) == seg_end(*self), "
            f"forall|i: int, s: real| #[trigger] seg_cv(ret.0)(i, s) == seg_cv(*self)(i, {tv('t')} * s), "
            f"forall|i: int, s: real| #[trigger] seg_cv(ret.1)(i, s) == seg_cv(*self)(i, {tv('t')} + (1real - {tv('t')}) * s), "
            f"on(seg_end(ret.0), seg_cv(*self), {tv('t')}), on(seg_start(ret.1), seg_cv(*self), {tv('t')})")
for T, V in (("LineSegment", "Linear"), ("QuadraticBezier", "Quadratic"), ("CubicBezier", "Cubic")):
    CT[f"BezierSegment::from_{T}"] = dict(src=f"From<{T}<P>> for BezierSegment::from", impl_head="impl<P> BezierSegment<P> where P: Point", rename=f"from_{T.lower()}",
                                          params=["s"], ensures=f"ret == BezierSegment::{V}(s)")
C05["BezierSegment::eval"] = dict(
    ensures="t.val() == 0real ==> forall|i__: int| 0 <= i__ < P::dim() ==> #[trigger] ret.c(i__) == seg_start(*self).c(i__), "
            "t.val() == 1real ==> forall|i__: int| 0 <= i__ < P::dim() ==> #[trigger] ret.c(i__) == seg_end(*self).c(i__), "
            "0real <= t.val() <= 1real ==> forall|i__: int| 0 <= i__ < P::dim() ==> seg_min_pt(*self, i__) <= #[trigger] ret.c(i__) <= seg_max_pt(*self, i__)")
SEG = ["BezierSegment::" + x for x in ("eval", "start", "end", "baseline", "is_linear", "split", "from_LineSegment", "from_QuadraticBezier", "from_CubicBezier")]
