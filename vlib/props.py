"""What each property is decided by: functions under contract (one verification file per unit), lemmas, harness property."""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "contracts"))
import basic
import metric
import bez
import seg
import pt
import bsp
import bbox
import safe
import safe_real

LQC = ["LineSegment", "QuadraticBezier", "CubicBezier"]
CT, DEFS, LEMMAS = basic.CT, basic.DEFS, basic.LEMMAS


def U(name, fns, structs=LQC, libs=("geo",), extra="", lemmas=(), over=None, base=None, safety=False, fp=False, alt=None):
    return dict(base=base, safety=safety, fp=fp, alt=alt, name=name, fns=list(fns), structs=list(structs), libs=list(libs), extra=extra, lemmas=list(lemmas), over=over or {})


def contracts(u):
    """the contracts of a unit: the shared ones plus the unit's additional postconditions"""
    ct = dict(u["base"] or CT)
    for k, o in u["over"].items():
        if k not in u["fns"]:
            continue
        c = dict(ct[k])
        for f in ("ensures", "requires"):
            if o.get(f):
                c[f] = ", ".join(x for x in (c.get(f, "").strip().rstrip(","), o[f]) if x)
        if o.get("tail"):
            t = c.get("tail", "")
            c["tail"] = {i: x + o["tail"] for i, x in t.items()} if isinstance(t, dict) else t + o["tail"]
        c["lemmas"] = list(c.get("lemmas", [])) + list(o.get("lemmas", []))
        for f in o:
            if f not in ("ensures", "requires", "tail", "lemmas"):
                c[f] = o[f]
        ct[k] = c
    return ct


def low(*names):
    return [f"{T}::{n}" for T in LQC for n in names if f"{T}::{n}" in CT]


NEW = low("new")
BEZ = dict(structs=["Bezier"], libs=("geo", "bern"), extra=bez.SPEC)

PROPS = {
    "C01": dict(units=[U("generic", ["Bezier::new", "Bezier::control_points", "Bezier::eval", "Spline for Bezier::eval"], **BEZ)]),
    "C02": dict(units=[U("low", NEW + low("eval", "eval_casteljau", "axis"), extra=metric.SPEC_CV)]),
    "C03": dict(units=[U("low", NEW + low("eval", "split") + ["BezierSegment::split", "BezierSegment::eval", "BezierSegment::start", "BezierSegment::end"],
                               structs=LQC + ["BezierSegment"], extra=metric.SPEC_CV + seg.SPEC_SEG), U("generic", ["Bezier::new", "Bezier::eval", "Bezier::split"], **BEZ)]),
    "C04": dict(units=[U("low", NEW + low("eval", "derivative", "dd"), libs=("geo", "diff"), extra=metric.SPEC_CV, over=bez.C04),
                       U("generic", ["Bezier::new", "Bezier::eval", "Bezier::derivative"], structs=["Bezier"], libs=("geo", "bern", "diff", "diffbern"), extra=bez.SPEC, over=bez.C04)]),
    "C07": dict(units=[U("line", ["LineSegment::new", "LineSegment::eval", "LineSegment::distance_to_point"], extra=metric.SPEC_CV)]),
    "C08": dict(units=[U("low", NEW + low("eval", "eval_casteljau") + ["QuadraticBezier::distance_to_point", "CubicBezier::distance_to_point"], extra=metric.SPEC_CV),
                       U("generic", ["Bezier::new", "Bezier::eval", "Bezier::distance_to_point"], **BEZ)]),
    "C09": dict(units=[U("low", NEW + low("eval", "eval_casteljau") + ["QuadraticBezier::arclen", "CubicBezier::arclen"], extra=metric.SPEC_CV),
                       U("generic", ["Bezier::new", "Bezier::eval", "Bezier::arclen"], **BEZ)]),
    "C10": dict(units=[U("low", NEW + ["LineSegment::eval", "LineSegment::distance_to_point"] + low("is_linear", "are_points_colinear", "is_a_point", "baseline"), extra=metric.SPEC_CV)]),
}
PROPS["C05"] = dict(units=[
    U("low", NEW + low("eval", "eval_casteljau") + ["BezierSegment::eval"], structs=LQC + ["BezierSegment"], libs=("geo", "bern"), extra=metric.SPEC_CV + seg.SPEC_SEG, over=seg.C05),
    U("generic", ["Bezier::new", "Bezier::eval"], structs=["Bezier"], libs=("geo", "bern"), extra=bez.SPEC + seg.SPEC_RANGE, over=seg.C05)])
PROPS["C06"] = dict(units=[U("boxes", NEW + low("eval", "eval_casteljau") + ["QuadraticBezier::derivative", "CubicBezier::derivative"] + bbox.BOX, libs=("geo", "avec", "bbox"), extra=metric.SPEC_CV)])
PROPS["C17"] = dict(units=[U("segment", NEW + low("eval", "split", "is_linear", "are_points_colinear", "baseline") + ["LineSegment::distance_to_point"] + seg.SEG,
                             structs=LQC + ["BezierSegment"], extra=metric.SPEC_CV + seg.SPEC_SEG)])
PROPS["C18"] = dict(units=[U("point", pt.PT, structs=[], extra=pt.SPEC_PT + pt.SPEC_INST)])
BSP = dict(structs=bsp.STRUCTS, libs=("geo", "bern", "bspl"), extra=bsp.SPEC_BS)
FPS = dict(structs=bsp.STRUCTS, libs=(), extra=safe.SPEC_FP, base=safe.FPC, fp=True)
# the same functions over the reals (see safe_real.py)
FP = dict(structs=bsp.STRUCTS, libs=(), extra=safe.SPEC_FP, base=safe.FPC, fp=True)
PROPS["C11"] = dict(units=[U("construction", ["BSpline::new"], **FP, alt=U("construction_real", ["BSpline::new"], **BSP))])
PROPS["C12"] = dict(units=[U("domain", ["BSpline::new"] + bsp.BASE, **FP, alt=U("domain_real", ["BSpline::new"] + bsp.BASE, **BSP))])
PROPS["C13"] = dict(units=[U("coxdeboor", ["BSpline::new"] + bsp.BASE, **BSP, over=bsp.C13)])
PROPS["C14"] = dict(units=[U("local", ["BSpline::new"] + bsp.BASE, **BSP, over=bsp.C14)])
PROPS["C15"] = dict(units=[U("derivative", ["BSpline::new"] + bsp.BASE + ["BSpline::derivative"], structs=bsp.STRUCTS, libs=BSP["libs"] + ("diff", "diffbs"), extra=bsp.SPEC_BS + bsp.SPEC_DER)])
PROPS["C16"] = dict(units=[U("arclen", ["BSpline::new"] + bsp.BASE + ["BSpline::arclen"], **BSP)])
PROPS["C19"] = dict(units=[
    U("curves", pt.STORE, structs=LQC + ["Bezier", "BezierSegment"] + bsp.STRUCTS, libs=("geo", "bern", "bspl"), extra=metric.SPEC_CV + seg.SPEC_SEG + pt.SPEC_ITER + bsp.SPEC_BS),
    U("point", ["PointN::new", "IntoIterator for PointN::into_iter", "IntoIterator for &mut PointN::into_iter"], structs=[], extra=pt.SPEC_PT)])
# C20: every public function with all the obligations of its body (bounds, overflow, unwrap, panics, loop variants)
LOWF = NEW + low("eval", "eval_casteljau", "control_points", "axis", "split", "derivative", "dd", "arclen", "distance_to_point", "is_a_point", "is_linear", "are_points_colinear", "baseline") + bbox.BOX
S20 = dict(base=safe.SAFE, safety=True, fp=True)
R20 = dict(base=safe_real.SAFE, safety=True)
SEGF = NEW + low("eval", "split", "is_linear", "are_points_colinear", "baseline") + ["LineSegment::distance_to_point"] + seg.SEG
GENF = ["Bezier::" + x for x in ("new", "control_points", "eval", "split", "derivative", "arclen", "distance_to_point")] + [
    "Spline for Bezier::eval", "IntoIterator for Bezier::into_iter", "IntoIterator for &mut Bezier::into_iter"]
BSPF = ["BSpline::new"] + bsp.BASE + ["BSpline::derivative", "BSpline::arclen", "BSpline::control_points", "BSpline::knots"]
PROPS["C20"] = dict(units=[
    U("curves", LOWF, libs=("avec",), **S20, alt=U("curves_real", LOWF, libs=("geo", "avec"), extra=metric.SPEC_CV, **R20)),
    U("segment", SEGF, structs=LQC + ["BezierSegment"], libs=(), **S20, alt=U("segment_real", SEGF, structs=LQC + ["BezierSegment"], extra=metric.SPEC_CV + seg.SPEC_SEG, **R20)),
    U("generic", GENF, structs=["Bezier"], libs=(), extra=pt.SPEC_ITER, **S20, alt=U("generic_real", GENF, structs=["Bezier"], libs=("geo", "bern"), extra=bez.SPEC + pt.SPEC_ITER, **R20)),
    U("bspline", BSPF, structs=bsp.STRUCTS, libs=(), extra=safe.SPEC_FP + pt.SPEC_ITER, **S20,
      alt=U("bspline_real", BSPF, structs=bsp.STRUCTS, libs=BSP["libs"], extra=bsp.SPEC_BS + pt.SPEC_ITER, **R20)),
    U("point", pt.PT, structs=[], libs=(), extra=pt.SPEC_ITER + pt.SPEC_PTS, **S20, alt=U("point_real", pt.PT, structs=[], extra=pt.SPEC_PT, **R20))])
ALL = ["C%02d" % i for i in range(1, 21)]
for p in ALL:
    PROPS.setdefault(p, dict(units=[]))
