"""Contracts of line segments, quadratic and cubic curves (evaluation, splitting, derivatives)."""
import ring as RG

DEFS = RG.Defs()
DEFS.add("lin", ["a", "b", "t"], "a*(1.0-t) + b*t")
DEFS.add("quad", ["a", "b", "c", "t"], "a*((1.0-t)*(1.0-t)) + 2.0*(b*((1.0-t)*t)) + c*(t*t)")
DEFS.add("cub", ["a", "b", "c", "d", "t"],
         "a*((1.0-t)*(1.0-t)*(1.0-t)) + 3.0*(b*((1.0-t)*(1.0-t)*t)) + 3.0*(c*((1.0-t)*t*t)) + d*(t*t*t)")
DEFS.add("dquad", ["a", "b", "c", "t"], "lin(2.0*(b-a), 2.0*(c-b), t)")
DEFS.add("dcub", ["a", "b", "c", "d", "t"], "quad(3.0*(b-a), 3.0*(c-b), 3.0*(d-c), t)")

CURVES = {"LineSegment": ("lin", ["start", "end"]), "QuadraticBezier": ("quad", ["start", "ctrl", "end"]),
          "CubicBezier": ("cub", ["start", "ctrl1", "ctrl2", "end"])}


def co(fields, i="i__", base="self"):
    return [f"{base}.{f}.c({i})" for f in fields]


CT = {}
for T, (fn, fl) in CURVES.items():
    # construction
    CT[f"{T}::new"] = dict(ensures=", ".join(f"ret.{f} == {f}" for f in fl))
    CT[f"{T}::eval"] = dict(eqs=[("", "pt", fn, co(fl) + ["t.val()"])])
    if T != "LineSegment":
        CT[f"{T}::eval_casteljau"] = dict(eqs=[("", "pt", fn, co(fl) + ["t.val()"])])
        CT[f"{T}::control_points"] = dict(ensures="ret@ == seq![" + ", ".join(f"self.{f}" for f in fl) + "]",
                                          tail="assert(r__@ =~= seq![" + ", ".join(f"self.{f}" for f in fl) + "]);")
        CT[f"{T}::baseline"] = dict(ensures="ret.start == self.start, ret.end == self.end")
    CT[f"{T}::axis"] = dict(requires="axis < P::dim()", eqs=[("", "num", fn, co(fl, "axis as int") + ["t.val()"])])

CT["LineSegment::derivative"] = dict(ensures="forall|i__: int| #[trigger] ret.c(i__) == self.end.c(i__) - self.start.c(i__)")
CT["QuadraticBezier::derivative"] = dict(
    ensures="forall|i__: int| #[trigger] ret.start.c(i__) == 2real*(self.ctrl.c(i__) - self.start.c(i__)), "
            "forall|i__: int| #[trigger] ret.end.c(i__) == 2real*(self.end.c(i__) - self.ctrl.c(i__))")
CT["CubicBezier::derivative"] = dict(
    ensures="forall|i__: int| #[trigger] ret.start.c(i__) == 3real*(self.ctrl1.c(i__) - self.start.c(i__)), "
            "forall|i__: int| #[trigger] ret.ctrl.c(i__) == 3real*(self.ctrl2.c(i__) - self.ctrl1.c(i__)), "
            "forall|i__: int| #[trigger] ret.end.c(i__) == 3real*(self.end.c(i__) - self.ctrl2.c(i__))")
CT["QuadraticBezier::dd"] = dict(requires="axis < P::dim()", eqs=[("", "num", "dquad", co(CURVES["QuadraticBezier"][1], "axis as int") + ["t.val()"])])
CT["CubicBezier::dd"] = dict(requires="axis < P::dim()", eqs=[("", "num", "dcub", co(CURVES["CubicBezier"][1], "axis as int") + ["t.val()"])])


def split_contract(T):
    fn, fl = CURVES[T]
    n = len(fl) - 1
    # blossom points b[r][j]
    b = [list(fl)]
    txt = {f: f"self.{f}.c(i__)" for f in fl}
    lv = [[txt[f] for f in fl]]
    return fn, fl


# de Casteljau triangle as definitions
DEFS.add("q1", ["a", "b", "c", "t"], "lin(lin(a,b,t), lin(b,c,t), t)")
DEFS.add("c1", ["a", "b", "c", "d", "t"], "lin(q1(a,b,c,t), q1(b,c,d,t), t)")


def split_eqs(T):
    fn, fl = CURVES[T]
    S = [f"self.{f}.c(i__)" for f in fl]
    t = "t.val()"
    if T == "LineSegment":
        L = [None, ("lin", S)]
        R = [("lin", S), None]
    elif T == "QuadraticBezier":
        L = [None, ("lin", S[0:2]), ("q1", S)]
        R = [("q1", S), ("lin", S[1:3]), None]
    else:
        L = [None, ("lin", S[0:2]), ("q1", S[0:3]), ("c1", S)]
        R = [("c1", S), ("q1", S[1:4]), ("lin", S[2:4]), None]
    eqs = []
    ens = [f"ret.0.{fl[0]} == self.{fl[0]}", f"ret.1.{fl[-1]} == self.{fl[-1]}"]
    for side, X in ((0, L), (1, R)):
        for f, x in zip(fl, X):
            if x is not None:
                eqs.append((f".{side}.{f}", "pt", x[0], x[1] + [t]))
    lo = [f"ret.0.{f}.c(i__)" for f in fl]
    hi = [f"ret.1.{f}.c(i__)" for f in fl]
    SS = ", ".join(S)
    ens += [f"forall|i__: int, s: real| #[trigger] {fn}({', '.join(lo)}, s) == {fn}({SS}, {t} * s)",
            f"forall|i__: int, s: real| #[trigger] {fn}({', '.join(hi)}, s) == {fn}({SS}, {t} + (1real - {t}) * s)",
            f"forall|i__: int| #[trigger] ret.0.{fl[-1]}.c(i__) == {fn}({SS}, {t})",
            f"forall|i__: int| #[trigger] ret.1.{fl[0]}.c(i__) == {fn}({SS}, {t})"]
    r = lambda z: z.replace("ret.", "r__.")
    tl = (f"assert forall|i__: int, s: real| #[trigger] {fn}({', '.join(map(r, lo))}, s) == {fn}({SS}, {t} * s) by {{ split_{fn}_lo({SS}, {t}, s); }}"
          f"assert forall|i__: int, s: real| #[trigger] {fn}({', '.join(map(r, hi))}, s) == {fn}({SS}, {t} + (1real - {t}) * s) by {{ split_{fn}_hi({SS}, {t}, s); }}"
          f"assert forall|i__: int| #[trigger] r__.0.{fl[-1]}.c(i__) == {fn}({SS}, {t}) by {{ split_{fn}_mid({SS}, {t}); }}"
          f"assert forall|i__: int| #[trigger] r__.1.{fl[0]}.c(i__) == {fn}({SS}, {t}) by {{ split_{fn}_mid({SS}, {t}); }}")
    return dict(eqs=eqs, ensures=", ".join(ens), tail=tl, lemmas=["split_" + fn])


for T in CURVES:
    CT[f"{T}::split"] = split_eqs(T)


def L_split(fn):
    def f(ring):
        L = {"lin": (["a", "b"], ["a", "lin(a,b,t)"], ["lin(a,b,t)", "b"]),
             "quad": (["a", "b", "c"], ["a", "lin(a,b,t)", "q1(a,b,c,t)"], ["q1(a,b,c,t)", "lin(b,c,t)", "c"]),
             "cub": (["a", "b", "c", "d"], ["a", "lin(a,b,t)", "q1(a,b,c,t)", "c1(a,b,c,d,t)"],
                     ["c1(a,b,c,d,t)", "q1(b,c,d,t)", "lin(c,d,t)", "d"])}
        ps, lo, hi = L[fn]
        P = ",".join(ps)
        o = RG.spec_lemma(ring, DEFS, f"split_{fn}_lo", ps + ["t", "s"], f"{fn}({','.join(lo)},s)", f"{fn}({P},t*s)")
        o += RG.spec_lemma(ring, DEFS, f"split_{fn}_hi", ps + ["t", "s"], f"{fn}({','.join(hi)},s)", f"{fn}({P},t+(1.0-t)*s)")
        o += RG.spec_lemma(ring, DEFS, f"split_{fn}_mid", ps + ["t"], lo[-1], f"{fn}({P},t)")
        return o
    return f


LEMMAS = {"split_" + f: L_split(f) for f in ("lin", "quad", "cub")}
