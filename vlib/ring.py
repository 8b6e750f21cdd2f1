"""Commutative-ring reasoning for the generated proofs.

Z3 does not reliably decide large polynomial identities, so every non-linear product that the generated
obligations need is justified by a chain of small lemmas produced here.  This module is untrusted: it only
emits proof text; every emitted lemma and assertion is checked by the verifier.
"""
from fractions import Fraction as F
from rustparse import N, Parser, lex, ParseError


class NotRing(Exception):
    pass


# ------------------------------------------------------------------ polynomials
def pconst(c):
    c = F(c)
    return {(): c} if c else {}


def patom(a):
    return {((a, 1),): F(1)}


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, F(0)) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mm(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, e in q.items():
            k = _mm(m, n)
            v = r.get(k, F(0)) + c * e
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def rlit(c):
    c = F(c)
    s = f"{abs(c.numerator)}real"
    if c.denominator != 1:
        s = f"({s} / {c.denominator}real)"
    return s


def rmono(m):
    f = [a for a, e in m for _ in range(e)]
    s = f[-1]
    for x in reversed(f[:-1]):
        s = f"({x} * {s})"
    return s


def rterm(m, c):
    t = rlit(c) if not m else (rmono(m) if abs(c) == 1 else f"({rlit(c)} * {rmono(m)})")
    return f"(0real - {t})" if c < 0 else t


def terms(p):
    return [rterm(m, p[m]) for m in sorted(p)]


def rend(p):
    t = terms(p)
    return "0real" if not t else t[0] if len(t) == 1 else "(" + " + ".join(t) + ")"


def atoms_of(p):
    return {a for m in p for a, e in m}


# ------------------------------------------------------------------ ring expressions
# ('a', text) atom   ('c', Fraction)   ('+',x,y) ('-',x,y) ('*',x,y) ('n',x)
def espec(e):
    k = e[0]
    if k == "a":
        return e[1]
    if k == "c":
        return rlit(e[1]) if e[1] >= 0 else f"(0real - {rlit(e[1])})"
    if k == "n":
        return f"(-{espec(e[1])})"
    if k == "/":      # division by a constant
        return f"({espec(e[1])} / {rlit(e[2])})"
    return f"({espec(e[1])} {k} {espec(e[2])})"


def poly(e, env):
    k = e[0]
    if k == "a":
        return env[e[1]] if e[1] in env else patom(e[1])
    if k == "c":
        return pconst(e[1])
    if k == "n":
        return padd({}, poly(e[1], env), -1)
    if k == "/":
        return pmul(poly(e[1], env), pconst(F(1) / e[2]))
    x, y = poly(e[1], env), poly(e[2], env)
    return padd(x, y) if k == "+" else padd(x, y, -1) if k == "-" else pmul(x, y)


class Ring:
    """collects helper lemmas for one generated file"""

    def __init__(self):
        self.dist = set()
        self.out = []
        self.n = 0
        self.monos = {}
        self.mtext = []
        self.cache = {}

    def prod(self, x, y):
        """proof text for rend(x) * rend(y) == rend(x*y)"""
        rx, ry = rend(x), rend(y)
        if not x or not y:
            return [f"assert({rx} * {ry} == 0real) by(nonlinear_arith);"]
        X, Y, tx, ty = sorted(x), sorted(y), terms(x), terms(y)
        h = []
        if len(X) > 1:
            self.dist.add(("r", len(X)))
            h.append(f"ring_dist_r{len(X)}({', '.join(tx)}, {ry});")
        for m, a in zip(X, tx):
            if len(Y) > 1:
                self.dist.add(("l", len(Y)))
                h.append(f"ring_dist_l{len(Y)}({a}, {', '.join(ty)});")
            for n, b in zip(Y, ty):
                h.append(self.mono(m, x[m], n, y[n]))
        h.append(f"assert({rx} * {ry} == {rend(pmul(x, y))});")
        return h

    def mono(self, m, cm, n, cn):
        """lemma call for one product of monomials; lemmas are shared between equal shapes"""
        at = sorted({a for a, _ in m} | {a for a, _ in n})
        ren = {a: f"x{i}" for i, a in enumerate(at)}
        rm = lambda q: tuple((ren[a], k) for a, k in q)
        key = (rm(m), cm, rm(n), cn)
        if key not in self.monos:
            nm = f"ring_m{len(self.monos)}"
            p, q = {key[0]: cm}, {key[2]: cn}
            st = f"{rend(p)} * {rend(q)} == {rend(pmul(p, q))}"
            self.monos[key] = nm
            self.mtext.append(f"proof fn {nm}({', '.join(ren[a] + ': real' for a in at)}) ensures {st} {{ assert({st}) by(nonlinear_arith); }}\n")
        return f"{self.monos[key]}({', '.join(at)});"

    def chain(self, e, env, out, done):
        k = e[0]
        if k in "ac":
            return poly(e, env)
        if k == "n":
            return padd({}, self.chain(e[1], env, out, done), -1)
        if k == "/":
            return pmul(self.chain(e[1], env, out, done), pconst(F(1) / e[2]))
        x, y = self.chain(e[1], env, out, done), self.chain(e[2], env, out, done)
        if k == "+":
            return padd(x, y)
        if k == "-":
            return padd(x, y, -1)
        r = pmul(x, y)
        s = espec(e)
        if s not in done:
            done.add(s)
            out.append(f"assert({s} == {rend(r)}) by {{ assert({espec(e[1])} == {rend(x)}); assert({espec(e[2])} == {rend(y)}); {' '.join(self.prod(x, y))} }}")
        return r

    def lemma(self, e, env, name=None):
        """lemma over reals:  env facts ==> espec(e) == normal form.
        returns (call text, polynomial).  Atoms become parameters."""
        at = []

        def coll(x):
            if x[0] == "a":
                if x[1] not in at:
                    at.append(x[1])
            elif x[0] == "/":
                coll(x[1])
            elif x[0] != "c":
                for y in x[1:]:
                    coll(y)
        coll(e)
        p0 = poly(e, env)
        base = list(at)
        for a in at:
            if a in env:
                for b in sorted(atoms_of(env[a])):
                    if b not in base:
                        base.append(b)
        base.sort()     # the renaming keeps the order of atoms, hence the normal forms
        ren = {a: f"v{i:02d}" for i, a in enumerate(base)}

        def rn(x):
            if x[0] == "a":
                return ("a", ren[x[1]])
            if x[0] == "c":
                return x
            if x[0] == "/":
                return ("/", rn(x[1]), x[2])
            return (x[0],) + tuple(rn(y) for y in x[1:])

        def rp(p):
            return {tuple(sorted((ren[a], k) for a, k in m)): c for m, c in p.items()}
        e2 = rn(e)
        env2 = {ren[a]: rp(env[a]) for a in at if a in env}
        out = []
        ck = (e2, tuple(sorted((v, tuple(sorted(q.items()))) for v, q in env2.items())), len(base))
        if name is None and ck in self.cache:
            return f"{self.cache[ck]}({', '.join(base)});", p0
        r = self.chain(e2, env2, out, set())
        self.n += 1
        if name is None:
            name = f"ring_{self.n}"
            self.cache[ck] = name
        req = [f"{v} == {rend(p)}" for v, p in env2.items()]
        s = f"proof fn {name}({', '.join(ren[a] + ': real' for a in base)})\n"
        if req:
            s += "    requires " + ", ".join(req) + ",\n"
        s += f"    ensures {espec(e2)} == {rend(r)},\n{{\n" + "".join("    " + l + "\n" for l in out) + f"    assert({espec(e2)} == {rend(r)});\n}}\n"
        self.out.append(s)
        return f"{name}({', '.join(base)});", p0

    def modules(self, nmod=8):
        """the helper lemmas, spread over modules so that they are verified in parallel; names are re-exported by mod ring"""
        need = {}
        for k, n in self.dist:
            need[k] = max(need.get(k, 0), n)
        d = []
        for k, mx in sorted(need.items()):
            for n in range(2, mx + 1):
                xs = [f"x{i}" for i in range(n)]
                sm = lambda v: "(" + " + ".join(v) + ")" if len(v) > 1 else v[0]
                hd, tl = sm(xs[:-1]), xs[-1]
                if k == "r":
                    st = f"({' + '.join(xs)}) * y == {' + '.join(v + ' * y' for v in xs)}"
                    ar = ', '.join(v + ': real' for v in xs) + ", y: real"
                    prev = f"ring_dist_r{n-1}({', '.join(xs[:-1])}, y); ring_dist_r2({hd}, {tl}, y);"
                else:
                    st = f"y * ({' + '.join(xs)}) == {' + '.join('y * ' + v for v in xs)}"
                    ar = "y: real, " + ', '.join(v + ': real' for v in xs)
                    prev = f"ring_dist_l{n-1}(y, {', '.join(xs[:-1])}); ring_dist_l2(y, {hd}, {tl});"
                d.append(f"pub proof fn ring_dist_{k}{n}({ar}) ensures {st} {{ " + (f"assert({st}) by(nonlinear_arith);" if n == 2 else prev) + " }\n")
        mods = [[] for _ in range(2 * nmod)]
        for i, t in enumerate(self.mtext):
            mods[i % nmod].append("pub " + t)
        mods[0] = d + mods[0]
        for i, t in enumerate(self.out):
            mods[nmod + i % nmod].append("pub " + t)
        o = ""
        names = []
        for i, m in enumerate(mods):
            if m:
                names.append(f"ring{i}")
                o += f"pub mod ring{i} {{ use vstd::prelude::*; use super::ring::*; use super::pre::*; verus! {{\n{''.join(m)}}} }}\n"
        return "pub mod ring { " + " ".join(f"pub use super::{n}::*;" for n in names) + " }\n" + o


# ------------------------------------------------------------------ spec-side definitions:  name(params) = expr
class Defs:
    def __init__(self):
        self.d = {}

    def add(self, name, params, text):
        self.d[name] = (params, parse_expr(text))

    def text(self, names=None):
        o = ""
        for n, (ps, e) in self.d.items():
            o += f"pub open spec fn {n}({', '.join(p + ': real' for p in ps)}) -> real {{ {espec(self.conv(e, {}))} }}\n"
        return o

    def conv(self, e, sub):
        """AST -> ring expression, expanding defined functions"""
        k = e.k
        if k == "paren":
            return self.conv(e.e, sub)
        if k == "lit":
            return ("c", F(e.s.replace("_", "").rstrip(".")))
        if k == "path":
            return sub.get(e.p) or ("a", e.p)
        if k == "un" and e.op == "-":
            return ("n", self.conv(e.e, sub))
        if k == "bin" and e.op in "+-*":
            return (e.op, self.conv(e.l, sub), self.conv(e.r, sub))
        if k == "call" and e.f.k == "path" and e.f.p in self.d:
            ps, b = self.d[e.f.p]
            return self.conv(b, {p: self.conv(a, sub) for p, a in zip(ps, e.args)})
        raise NotRing(k)


def parse_expr(text):
    p = Parser(lex(text))
    e = p.expr()
    if p.i != len(p.t):
        raise ParseError("trailing tokens in " + text)
    return e


def spec_lemma(ring, defs, name, params, lhs, rhs=None, where=()):
    """emit `proof fn name(params) requires where ensures lhs == rhs` (or lhs == normal form).
    where: list of (var, expr) giving definitions of some params."""
    env = {}
    req = []
    body = []
    for v, ex in where:
        ee = defs.conv(parse_expr(ex), {})
        c, p = ring.lemma(ee, env)
        body.append(c)
        env[v] = p
        req.append(f"{v} == {show(ex)}")
    el = defs.conv(parse_expr(lhs), {})
    cl, pl = ring.lemma(el, env)
    body.append(cl)
    if rhs is not None:
        er = defs.conv(parse_expr(rhs), {})
        cr, pr = ring.lemma(er, env)
        body.append(cr)
        if pl != pr:
            raise NotRing(f"{name}: the two sides differ: {rend(padd(pl, pr, -1))}")
        ens = f"{show(lhs)} == {show(rhs)}"
    else:
        ens = f"{show(lhs)} == {rend(pl)}"
    s = f"#[verifier::spinoff_prover]\npub proof fn {name}({', '.join(p + ': real' for p in params)})\n"
    if req:
        s += "    requires " + ", ".join(req) + ",\n"
    s += f"    ensures {ens},\n{{\n" + "".join("    " + b + "\n" for b in body) + "}\n"
    return s


def show(text):
    """print a ring-syntax expression (float literals) in Verus syntax"""
    import re
    return re.sub(r"(?<![\w.])(\d+)\.0?(?![\d\w])", r"\1real", text)
