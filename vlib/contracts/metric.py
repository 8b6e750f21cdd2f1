"""Distances, arc lengths, flatness predicates."""
from basic import CT, CURVES, DEFS, LEMMAS, co

CVFN = {"LineSegment": "line_cv(self.start, self.end)", "QuadraticBezier": "quad_cv(*self)", "CubicBezier": "cub_cv(*self)"}
SPEC_CV = """
pub open spec fn quad_cv<P: Point>(s: QuadraticBezier<P>) -> Cv { |i: int, t: real| quad(s.start.c(i), s.ctrl.c(i), s.end.c(i), t) }
pub open spec fn cub_cv<P: Point>(s: CubicBezier<P>) -> Cv { |i: int, t: real| cub(s.start.c(i), s.ctrl1.c(i), s.ctrl2.c(i), s.end.c(i), t) }
"""

for T in ("QuadraticBezier", "CubicBezier"):
    for m in ("eval", "eval_casteljau"):
        CT[f"{T}::{m}"]["ensures"] = f"on(ret, {CVFN[T]}, t.val())"

CT["LineSegment::distance_to_point"] = dict(
    params=["p"], lets=["l2", "v1", "v2", "dot", "t", "projection"], last={"projection": "pt"},
    start="""proof {
        assert forall|d: P| (forall|i: int| #[trigger] d.c(i) == self.end.c(i) - self.start.c(i)) implies #[trigger] d.sqlen() == dist2(self.end, self.start) by {
            P::law_sqlen(d); sqsum_ext(|i: int| d.c(i), |i: int| self.end.c(i) - self.start.c(i), P::dim()); } }""",
    ensures="ret.val() >= 0real, "
            "dist2(self.end, self.start) < eps() ==> ret.val() == rsqrt(dist2(self.start, p)), "
            "dist2(self.end, self.start) >= eps() ==> ret.val() == rsqrt(pdist2(p, line_cv(self.start, self.end), seg_t(self.start, self.end, p))) && 0real <= seg_t(self.start, self.end, p) <= 1real, "
            "dist2(self.end, self.start) >= eps() ==> forall|s: real| 0real <= s <= 1real ==> ret.val() <= rsqrt(#[trigger] pdist2(p, line_cv(self.start, self.end), s))",
    loops={0: dict(kind="for", inv="dot.val() == dotsum(|k: int| p.c(k) - self.start.c(k), |k: int| self.end.c(k) - self.start.c(k), $i as nat)")},
    tail={"*": "", "projection": """
        let cv = line_cv(self.start, self.end);
        assert(t.val() == seg_t(self.start, self.end, p));
        assert(on(projection, cv, t.val())) by {
            assert forall|i: int| 0 <= i < P::dim() implies #[trigger] projection.c(i) == cv(i, t.val()) by {
                let (x, y, z) = (self.start.c(i), self.end.c(i), t.val());
                assert(x * (1real - z) + y * z == x + (y - x) * z) by(nonlinear_arith);
            }
        }
        seg_min(self.start, self.end, p, 0real);
        assert forall|s: real| 0real <= s <= 1real implies r__.val() <= rsqrt(#[trigger] pdist2(p, cv, s)) by {
            seg_min(self.start, self.end, p, s);
            sqsum_nonneg(|i: int| p.c(i) - cv(i, s), P::dim()); sqsum_nonneg(|i: int| p.c(i) - cv(i, t.val()), P::dim());
            sqrt_mono(pdist2(p, cv, t.val()), pdist2(p, cv, s));
        }"""})


def dist_contract(cv, evalinit):
    return dict(
        params=["point"], muts=["tmin", "dmin"],
        ensures=f"ret.val() >= 0real, exists|s: real| 0real <= s <= 1real && ret.val() == rsqrt(#[trigger] pdist2(point, {cv}, s)), "
                f"forall|k: int| 0 <= k <= 64 ==> ret.val() <= rsqrt(#[trigger] pdist2(point, {cv}, (k as real) / 64real))",
        start=f"let ghost cv = {cv}; proof {{ {evalinit} }}",
        loops={0: dict(kind="for", inv="dmin.val() >= 0real, exists|s: real| 0real <= s <= 1real && dmin.val() == #[trigger] pdist2(point, cv, s), "
                                       "0real <= tmin.val() <= 1real, forall|k: int| 0 <= k < $i ==> dmin.val() <= #[trigger] pdist2(point, cv, (k as real) / 64real)",
                       end="proof { let s__ = ($i as real) / 64real; assert(0real <= s__ <= 1real && pdist2(point, cv, s__) >= 0real) by { sqsum_nonneg(|i: int| point.c(i) - cv(i, s__), P::dim()); } }"),
               1: dict(kind="for", inv="dmin.val() >= 0real, exists|s: real| 0real <= s <= 1real && dmin.val() == #[trigger] pdist2(point, cv, s), "
                                       "forall|k: int| 0 <= k <= 64 ==> dmin.val() <= #[trigger] pdist2(point, cv, (k as real) / 64real)")},
        tail="""assert forall|k: int| 0 <= k <= 64 implies r__.val() <= rsqrt(#[trigger] pdist2(point, cv, (k as real) / 64real)) by {
            sqsum_nonneg(|i: int| point.c(i) - cv(i, (k as real) / 64real), P::dim()); sqrt_mono(dmin.val(), pdist2(point, cv, (k as real) / 64real)); }""")


def arclen_contract(cv, at0):
    return dict(
        # the end point of a segment is kept for the next one
        alts=[dict(shape=["for * ..* [2]"], base=["for 0 .."], muts=["arclen", "previous"], mkinds=dict(arclen="num", previous="pt"),
                   start=f"let ghost cv = {cv}; proof {{ {at0} }}",
                   loops={0: dict(kind="for", inv=f"arclen.val() == polylen({cv}, 0real, 1real, $i as nat, nsteps as int, P::dim()), nsteps > 0 ==> on(previous, cv, par(0real, 1real, $i as int, nsteps as int))",
                                  before="proof { if nsteps > 0 { par01(0, nsteps as int); let n__ = nsteps as real; assert((0int as real) / n__ == 0real) by(nonlinear_arith) requires n__ > 0real; } }",
                                  start="proof { par01($i as int, nsteps as int); par01($i as int + 1, nsteps as int); }")})],
        params=["nsteps"], muts=["arclen"],
        ensures=f"ret.val() == polylen({cv}, 0real, 1real, nsteps as nat, nsteps as int, P::dim())",
        loops={0: dict(kind="for", inv=f"arclen.val() == polylen({cv}, 0real, 1real, $i as nat, nsteps as int, P::dim())",
                       start="proof { par01($i as int, nsteps as int); par01($i as int + 1, nsteps as int); }")})


for T in ("QuadraticBezier", "CubicBezier"):
    ev = {"QuadraticBezier": "assert forall|i: int| quad(self.start.c(i), self.ctrl.c(i), self.end.c(i), 0real) == self.start.c(i) by { quad_at0(self.start.c(i), self.ctrl.c(i), self.end.c(i)); }",
          "CubicBezier": "assert forall|i: int| cub(self.start.c(i), self.ctrl1.c(i), self.ctrl2.c(i), self.end.c(i), 0real) == self.start.c(i) by { cub_at0(self.start.c(i), self.ctrl1.c(i), self.ctrl2.c(i), self.end.c(i)); }"}[T]
    CT[f"{T}::distance_to_point"] = dict(dist_contract(CVFN[T], ev + f" assert(on(self.start, {CVFN[T]}, 0real));"), lemmas=["at01"])
    CT[f"{T}::arclen"] = dict(arclen_contract(CVFN[T], ev + f" assert(on(self.start, {CVFN[T]}, 0real));"), lemmas=["at01"])

NEARSEG = "near_seg(self.start, self.end, {}, tolerance.val())"
SPEC_CV += """
/// p is within tol of the segment from a to b
pub open spec fn near_seg<P: Point>(a: P, b: P, p: P, tol: real) -> bool { exists|s: real| 0real <= s <= 1real && rsqrt(#[trigger] pdist2(p, line_cv(a, b), s)) <= tol }
"""
for T, inner in (("QuadraticBezier", ["ctrl"]), ("CubicBezier", ["ctrl1", "ctrl2"])):
    CT[f"{T}::is_linear"] = dict(
        params=["tolerance"], start="proof { dist2_eq(self.start, self.end); }",
        ensures="ret == (dist2(self.start, self.end) >= eps() && " + " && ".join(f"near_seg(self.start, self.end, self.{c}, tolerance.val())" for c in inner) + ")")
    CT[f"{T}::are_points_colinear"] = dict(
        params=["tolerance"],
        ensures="dist2(self.start, self.end) >= eps() ==> ret == (" + " && ".join(f"near_seg(self.start, self.end, self.{c}, tolerance.val())" for c in inner) + ")")
    q = [("self.start", "self.end")] + ([("self.start", "self.ctrl")] if T[0] == "Q" else [("self.start", "self.ctrl1"), ("self.end", "self.ctrl2")])
    CT[f"{T}::is_a_point"] = dict(
        params=["tolerance"],
        ensures="tolerance.val() >= 0real ==> ret == (" + " && ".join(f"rsqrt(dist2({a}, {b})) <= tolerance.val()" for a, b in q) + ")",
        tail="if tolerance.val() >= 0real { " + " ".join(f"sq_le({a}, {b}, tolerance.val());" for a, b in q) + " }")


def L_at01(ring):
    o = ""
    for fn, ps in (("lin", "ab"), ("quad", "abc"), ("cub", "abcd")):
        a = ", ".join(ps)
        for v, r in ((0, ps[0]), (1, ps[-1])):
            import ring as RG
            o += RG.spec_lemma(ring, DEFS, f"{fn}_at{v}", list(ps), f"{fn}({','.join(ps)},{v}.0)", r)
    return o


LEMMAS["at01"] = L_at01
