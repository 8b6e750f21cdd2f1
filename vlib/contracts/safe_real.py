"""The safety contracts over the reals: only consulted when the proof over floating-point numbers (safe.py) fails on changed
code.  Code that is safe over the reals but not provably so over floats (a quotient that might be NaN, say) is then no longer
proved, which is not an alarm; the replay harness runs deeper instead."""
from basic import CT
import bsp
import pt

KEEP = ("params", "dim_param", "consts", "src", "inherent", "rename", "impl_head", "self_param", "ret_type", "generics", "iters", "own_generics", "attrs", "tys", "where", "paths", "kinds", "tail_ty")


def slim(key, **kw):
    c = CT[key]
    o = {k: c[k] for k in KEEP if k in c}
    o.pop("params", None)
    o["hints"] = False
    o["auto_loops"] = True
    o["loops"] = {i: dict(desugar=True, kind="for") for i, a in c.get("loops", {}).items() if isinstance(a, dict) and a.get("desugar")}
    o.update(kw)
    return o


SAFE = {k: slim(k) for k in CT}
AX = dict(requires="axis < P::dim()", params=["axis", "t"])
for k in ("LineSegment::axis", "QuadraticBezier::axis", "CubicBezier::axis", "QuadraticBezier::dd", "CubicBezier::dd"):
    SAFE[k].update(requires=CT[k]["requires"], **({"params": CT[k]["params"]} if "params" in CT[k] else {}))
for k in CT:
    if k.endswith("::bounding_box"):
        SAFE[k].update(requires="DIM == P::dim()")
    if k.startswith("BezierSegment::") and CT[k].get("requires"):
        SAFE[k].update(requires=CT[k]["requires"])
    if " for " in k or k.startswith("PointN"):
        if CT[k].get("muts") == ["res"]:
            SAFE[k].update(muts=["res"], loops={0: dict(kind="for", inv="forall|k: int| $i <= k < N ==> #[trigger] res.0@[k] == self.0@[k]")},
                           alts=[dict(shape=["for 0 .."], mk={"res": "arr:T"}, loops={0: dict(pt.OWN)})])
        # operators of PointN: elementwise operations of T must be defined
        if CT[k].get("requires"):
            SAFE[k].update(requires=CT[k]["requires"], **({"params": CT[k]["params"]} if "params" in CT[k] else {}))
SAFE["LineSegment::root"].update(ensures="ret@.len() <= 1")
SAFE["QuadraticBezier::real_roots"].update(ensures="ret@.len() <= 2")
for k, n in (("QuadraticBezier::bounding_box", 1), ("CubicBezier::bounding_box", 2)):
    SAFE[k].update(muts=["bounds", "extrema"], loops={
        1: dict(kind="while", dec="pre__1@.len() - k__1", inv=f"k__1 <= pre__1@.len(), extrema@ == pre__1@, kept__1@.len() <= k__1, pre__1@.len() <= {n}"),
        2: dict(kind="while", dec="pre__2@.len() - k__2", inv="extrema@.len() == pre__2@.len(), k__2 <= pre__2@.len()")},
        alts=[dict(shape=["for 0 .. [1]", "for 0 .. [1]"], loops={1: dict(kind="for", before="let ghost base__ = extrema@.len();", inv=f"av__1@.len() <= {n}, base__ <= extrema@.len() <= $i + base__")}),
              dict(shape=["for 0 .. [1]", "for 0 .. [2]"], loops={}, muts=[]),
              dict(shape=["for 0 .. [1]", "while [2]", "while [2]", "for 0 .. [2]"])])
for k in list(CT):
    if k.startswith("Bezier::") or k.startswith("Spline for Bezier"):
        if CT[k].get("requires"):
            SAFE[k].update(requires=CT[k]["requires"])
SAFE["Bezier::derivative"].update(alts=[dict(shape=["for 0 .."], loops={})], loops={0: dict(kind="for", desugar=True, inv_except_break="$i <= M - 1")})
WF = "wf(*self)"
for k in CT:
    if k.startswith("BSpline::"):
        r = CT[k].get("requires", "")
        SAFE[k].update(requires=r, **({"params": CT[k]["params"]} if "params" in CT[k] else {}))
SAFE["BSpline::new"] = dict(CT["BSpline::new"], ensures="ret matches Ok(s) ==> wf(s)")
for x in ("knot_domain", "knot_domain_clamped", "knot_domain_clamped_start", "knot_domain_clamped_end", "knot_domain_unclamped"):
    SAFE[f"BSpline::{x}"].update(ensures=CT[f"BSpline::{x}"]["ensures"])
for x in ("", "_clamped", "_clamped_start", "_clamped_end", "_unclamped"):
    k = "BSpline::knot_span_start_for_t" + x
    SAFE[k] = dict(CT[k], ensures="ret is Some ==> D <= ret->0 < C", hints=False)
SAFE["BSpline::de_boor_iterative"].update(
    muts=["k", "d"], loops={0: dict(kind="while", dec="k", inv="D <= k < C"), 2: dict(kind="for", inv="D <= k < C"), 3: dict(kind="for", inv="D <= k < C")})
SAFE["BSpline::derivative"].update(alts=[dict(shape=["for 0 .."] * 2, loops={})], loops={0: dict(kind="for", desugar=True, inv_except_break="$i <= C - 2")})
