"""Mechanical extraction of functions of /repo into a file the verifier accepts, with contracts attached.

For every function under contract the body is parsed from /repo's current source, transformed by the fixed list
of rewrites below, and printed.  Contracts (requires / ensures / invariants / proof text) come from contracts/*.py
and never replace code.  The rewrites (all of them):
  R1  float literals          1.0            ->  nf_lit(Ghost(1real))
  R2  casts to NativeFloat    e as NativeFloat -> nf_cast(e)
  R3  EPSILON                 ->  nf_eps();  P::DIM -> the const parameter DIM;  P::Scalar::default() -> P::Scalar::s_default()
  R4  compound assignment     a += b         ->  a = a + b   (not on integers)
  R5  loops whose iterator only counts: `for (i, _) in x.into_iter().enumerate()` -> `for i in 0..n`
      with n = P::dim_exec() for points and x.len() for arrays (also .iter().enumerate())
  R6  ArrayVec -> AVec (vlib/avec.rs): new/push/extend/last/len/[i]/sort_unstable_by -> calls of its contracts; retain(|x| c) and
      `for x in v.iter_mut() { B }` -> the loops over the elements they abbreviate
  R7  s.windows(w).all(f), s[a..=b].iter().all(f), s[a..].iter().any(f), ... -> the loop over the slice that evaluates f
      (bounds of the slice become an obligation)
  R8  calls of functions of the same crate that have no contract are inlined (arguments bound by let)
  R9  the tail expression e of a block in result position -> `let r__ = e; proof {..} r__`
  R12 a `for i in a..b` loop left by break, and `for i in (a..=b).rev()` -> the while loop it abbreviates
  R13 assert!(c) / debug_assert!(c) -> if !(c) { vpanic() },  panic!() / unreachable!() -> vpanic()   (vpanic requires false)
  R14 core iterators over a whole array (iter, iter_mut, IntoIterator::into_iter) -> arr_iter / arr_iter_mut / arr_into_iter (contracts)
  R15 r.unwrap_or_else(|p| b) -> match r { Ok(v) => v, Err(p) => b }
  R16 type ascription for a local whose type rustc infers and an invariant mentions
  R17-R19 closures bound to a name, iterator chains, counted while loops, loops over arrays, early returns of helpers: see norm.py
  R20 constants of the crate, of an impl or of a body are bound by `let` at the start of the body (EPSILON = f64::EPSILON is nf_eps());
      nested `use` is resolved, nested functions count as functions of the crate
  R10 constant expressions in const-generic position (N - 1 ...) -> extra const parameters with a requires clause
Comments, attributes, doc comments and visibility are dropped.
"""
import copy
import json
import os
import re
from fractions import Fraction as F

import norm
import ring as RG
from rustparse import (N, ParseError, Parser, canon_tokens, children, fn_name, join_tokens, lex, parse_body, scan_items,
                       split_sig, transform, ublock, unparse, ustmt, walk)

REPO = os.environ.get("VERIF_REPO", "/repo")


MUTATORS = ("push", "extend", "extend_from", "retain", "set", "insert", "sort_by", "sort_unstable_by", "swap", "copy_from_slice", "fill", "clear", "iter_mut")
try:
    BASE = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "shapes.json")))
except OSError:
    BASE = {}


class Unsupported(Exception):
    """function outside the verifier's reach (or anchor lost)"""


# ---------------------------------------------------------------------------------------------- source index
class OtherForm(Exception):
    def __init__(self, alt):
        self.alt = alt


class Source:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.files = {}
        self.fns = {}       # key -> (file, toks, item, header)
        self.structs = {}
        self.nested = {}
        self.consts = {}    # NAME or Type::NAME -> (type, tokens of the initialiser)
        self.types = {}
        self.alias = {}     # file -> {name: what it stands for}
        self.errors = {}
        d = os.path.join(self.repo, "src")
        for root, _, names in os.walk(d):
            for n in sorted(names):
                if n.endswith(".rs"):
                    self.load(os.path.join(root, n))

    def load(self, path):
        rel = os.path.relpath(path, self.repo)
        try:
            text = open(path).read()
            toks, items = scan_items(text)
        except (ParseError, IndexError) as e:
            self.errors[rel] = str(e)
            return
        self.files[rel] = (text, toks, items)
        self._index(rel, toks, items, None)

    def _index(self, rel, toks, items, ctx):
        for it in items:
            a, b = it["head"]
            if any(re.sub(r"\s", "", x).startswith('#[cfg(not(target_pointer_width="64"))') for x in it["attrs"]):
                continue
            if it["kind"] == "use":
                self.alias.setdefault(rel, []).append(toks[a:b + 1])
            if it["kind"] == "const":
                self.const(toks[a:b], "")
            if it["kind"] == "type":
                t = toks[a:b]
                k = [x.s for x in t].index("type")
                e = [x.s for x in t].index("=") if "=" in [x.s for x in t] else None
                if e is not None:
                    self.types[t[k + 1].s] = join_tokens(t[e + 1:])
            if it["kind"] == "mod" and "items" in it:
                self._index(rel, toks, it["items"], None)
            elif it["kind"] == "impl":
                h = impl_header(toks, it)
                for f in it.get("items", []):
                    if f["kind"] == "const":
                        fa, fb = f["head"]
                        nm = re.match(r"(?:&\s*)?(\w+)", h["type"]).group(1)
                        name, ty, init = self.const(toks[fa:fb], nm + "::")
                        # the constant as a function, so that it can carry a contract
                        t2, i2 = scan_items(f"fn {name}() -> {ty} {{ {join_tokens(init)} }}")
                        self.fns.setdefault(h["key"] + "::" + name, []).append((rel, t2, i2[0], h))
                    if f["kind"] == "fn" and f["body"]:
                        key = h["key"] + "::" + fn_name(toks, f)
                        self.fns.setdefault(key, []).append((rel, toks, f, h))
            elif it["kind"] == "trait":
                ts = [x.s for x in toks[a:b]]
                tn = ts[ts.index("trait") + 1]
                for f in it.get("items", []):
                    if f["kind"] == "fn" and f["body"]:
                        self.fns.setdefault(f"trait {tn}::{fn_name(toks, f)}", []).append((rel, toks, f, dict(generics="", type="P", trait=None, where="", key="P")))
            elif it["kind"] == "fn" and it["body"]:
                self.fns.setdefault(fn_name(toks, it), []).append((rel, toks, it, None))
            elif it["kind"] in ("struct", "enum"):
                for k in range(a, b):
                    if toks[k].s in ("struct", "enum"):
                        self.structs[toks[k + 1].s] = (rel, toks, it)
                        break

    def variant(self, enum, var):
        """types of the fields of a tuple variant"""
        if enum not in self.structs:
            return []
        rel, tk, it = self.structs[enum]
        if not it["body"]:
            return []
        for i in range(it["body"][0] + 1, it["body"][1]):
            if tk[i].s == var and tk[i - 1].s in ("{", ",", "]") and tk[i + 1].s == "(":
                p = Parser(tk[i + 2:it["body"][1]])
                out = []
                while p.i < len(p.t) and not p.at(")"):
                    out.append(p.type_())
                    p.eat(",")
                return out
        return []

    def const(self, toks, pre):
        t = [x.s for x in toks]
        k = t.index("const")
        e = t.index("=")
        name, ty, init = t[k + 1], join_tokens(toks[k + 3:e]), toks[e + 1:]
        self.consts[pre + name] = (ty, init)
        return name, ty, init

    def uses(self, toks):
        """what the names of a `use` item stand for, where that is not the last segment itself"""
        out = {}

        def one(path, rest):
            rest = rest.strip()
            if rest.startswith("{"):
                d, a = 0, 1
                for i, ch in enumerate(rest):
                    d += (ch == "{") - (ch == "}")
                    if (ch == "," and d == 1) or d == 0:
                        if rest[a:i].strip():
                            one(path, rest[a:i])
                        a = i + 1
                    if d == 0:
                        break
                return
            m = re.match(r"^(\w+)\s*::\s*(.*)$", rest, re.S)
            if m:
                return one(path + [m.group(1)], m.group(2))
            if rest == "*":
                if path and path[-1] in self.structs:
                    r, tk, it = self.structs[path[-1]]
                    if it["body"] and tk[it["head"][0]].s != "struct":
                        dep = 0
                        for i in range(it["body"][0] + 1, it["body"][1]):
                            if tk[i].s in ("(", "[", "{"):
                                dep += 1
                            elif tk[i].s in (")", "]", "}"):
                                dep -= 1
                            elif dep == 0 and tk[i].k == "id" and tk[i - 1].s in ("{", ",", "]"):
                                out[tk[i].s] = path[-1] + "::" + tk[i].s
                return
            m = re.match(r"^(\w+)(?:\s+as\s+(\w+))?$", rest)
            if not m:
                return
            nm, al = m.group(1), m.group(2) or m.group(1)
            if nm == "self":
                nm = path[-1] if path else nm
                al = m.group(2) or nm
                path = path[:-1]
            full = path[-1] + "::" + nm if path and path[-1] in self.structs else nm
            if full != al and al != "_" and (path[:1] in (["crate"], ["self"], ["super"]) or (path and path[-1] in self.structs)):
                out[al] = full
        txt = join_tokens(toks).strip()
        txt = re.sub(r"^(pub\s*(\([^)]*\))?\s*)?use\s+", "", txt).rstrip(";")
        one([], txt)
        return out

    def get(self, key):
        c = self.fns.get(key, [])
        if len(c) != 1:
            raise Unsupported(f"anchor lost: {len(c)} definitions of {key}")
        return c[0]


def impl_header(toks, it):
    a, b = it["head"]
    p = Parser(toks[a:b])
    p.expect("impl")
    gen = ""
    p.split("<")
    if p.at("<"):
        s = p.i
        p._generic_args()
        gen = p.text(s, p.i)
    s = p.i
    p._type()
    t1 = p.text(s, p.i)
    trait = None
    if p.at("for"):
        p.next()
        s = p.i
        p._type()
        trait, t1 = t1, p.text(s, p.i)
    where = ""
    if p.at("where"):
        p.next()
        where = p.text(p.i, len(p.t))
    base = re.sub(r"^&\s*('\w+\s*)?(mut\s+)?", lambda m: m.group(0).replace(" ", "") and ("&mut " if "mut" in m.group(0) else "&"), t1)
    name = re.match(r"(&mut |&)?([\w:]+)", base)
    nm = ((name.group(1) or "") + name.group(2)) if name else base
    key = nm if trait is None else f"{trait.replace(' ', '')} for {nm}"
    return dict(generics=gen, type=t1, trait=trait, where=where, key=key)


# ---------------------------------------------------------------------------------------------- kinds
def own_generics(sig):
    """the type parameters a function declares itself (not P, which is the point type everywhere)"""
    g = (sig.get("generics") or "").strip()
    out, d, cur = [], 0, ""
    for ch in g[1:-1] + ",":
        if ch == "," and d == 0:
            m = re.match(r"^\s*(?:const\s+)?([A-Z]\w*)", cur)
            if m and m.group(1) != "P":
                out.append(m.group(1))
            cur = ""
            continue
        d += (ch in "<([") - (ch in ">)]")
        cur += ch
    return out


def kind_of_type(t, self_name):
    if t is None:
        return None
    t = t.replace(" ", "")
    t = re.sub(r"^&('\w+)?(mut)?", "", t)
    if t == "P" or t == "PointN<T,N>":
        return "pt"
    if t in ("P::Scalar", "NativeFloat", "NF", "Self::Scalar", "f64"):
        return "num"
    if t in ("usize", "isize", "i32", "u32", "i64", "u64"):
        return "int"
    if t == "bool":
        return "bool"
    if t == "Self":
        return "st:" + self_name
    m = re.match(r"^\[(.*);", t)
    if m and m.group(1).startswith("("):
        return "arr:pair"
    if m:
        k = kind_of_type(m.group(1), self_name)
        return "arr:" + k if k in ("pt", "num") else None
    m = re.match(r"^ArrayVec<\[(.*);(.*)\]>$", t)
    if m:
        return "avec"
    m = re.match(r"^(\w+)(<.*>)?$", t)
    if m and m.group(1)[0].isupper():
        return "st:" + m.group(1)
    return None


class Gen:
    """one generated file"""

    def __init__(self, src, contracts):
        self.src = src
        self.ct = contracts          # key -> contract dict
        self.ring = RG.Ring()
        self.log = []                # transformations applied
        self.inlined = []
        self.structs = {}
        self.shapes = {}
        self.vacuity = None          # place an assert(false) at the start / at the results of every body
        self.called = []             # functions with a contract that a body calls

    # ------------------------------------------------------------------ struct fields
    def fields(self, name):
        if name in self.structs:
            return self.structs[name]
        r = {}
        if name in self.src.structs:
            rel, toks, it = self.src.structs[name]
            if it["body"]:
                a, b = it["body"]
                p = Parser(toks[a + 1:b])
                while p.i < len(p.t):
                    if p.at("#"):
                        p.next()
                        p._group()
                        continue
                    while p.at("pub"):
                        p.next()
                        if p.at("("):
                            p._group()
                    if p.kind() != "id":
                        break
                    f = p.next().s
                    if not p.eat(":"):
                        break
                    r[f] = p.type_()
                    p.eat(",")
        self.structs[name] = r
        return r

    # ------------------------------------------------------------------ one function
    def function(self, key, stub=False):
        c = self.ct[key]
        src_key = c.get("src", key)
        rel, toks, it, h = self.src.get(src_key)
        sig = split_sig(toks, it)
        body = parse_body(toks, it)
        if self.src.types.get("NativeFloat", "f64") != "f64":
            raise Unsupported("NativeFloat is not f64")
        f = FnGen(self, key, c, rel, h, sig, body)
        f.body = f.resolve(body, rel, sig, h)
        if stub:
            return f.emit_stub()
        try:
            t = f.emit()
        except OtherForm as e:
            # the function is written with other loops or variables: the same contract, with the annotations for that form
            body = parse_body(toks, it)
            f2 = FnGen(self, key, dict(c, alts=[], **e.alt), rel, h, split_sig(toks, it), body)
            f2.body = f2.resolve(body, rel, f2.sig, h)
            t = f2.emit()
            f = f2
        self.shapes[key] = f.shape
        return t


class FnGen:
    def __init__(self, g, key, c, rel, h, sig, body):
        self.g, self.key, self.c, self.rel, self.h, self.sig, self.body = g, key, c, rel, h, sig, body
        self.self_name = re.match(r"(?:&\s*(?:'\w+\s*)?(?:mut\s+)?)?(\w+)", h["type"]).group(1) if h else ""
        self.tmp = 0
        self.vars = {}       # name -> kind
        self.muts = set()
        self.env = {}        # atom text -> polynomial
        self.tails = 0

    def err(self, m):
        raise Unsupported(f"{self.key}: {m}")

    # ---------------------------------------------------------------- R20 names
    def resolve(self, b, rel, sig, h, depth=0):
        """nested `use` and functions leave the body; a constant the body mentions is bound at its start"""
        src = self.g.src
        al, local = {}, {}
        for t in src.alias.get(rel, []):
            al.update(src.uses(t))

        def items(x):
            if x.k != "block":
                return x
            out = []
            for st in x.stmts:
                if st.k == "item" and st.kind == "use":
                    al.update(src.uses(st.toks))
                elif st.k == "item":
                    t2, i2 = scan_items(join_tokens(st.toks))
                    n = fn_name(t2, i2[0])
                    if n in src.fns and src.nested.get(n) != join_tokens(st.toks):
                        self.err(f"nested function {n} has the name of another function")
                    src.fns[n] = [(rel, t2, i2[0], None)]
                    src.nested[n] = join_tokens(st.toks)
                elif st.k == "const":
                    local[st.name] = (st.ty, st.init)
                else:
                    out.append(st)
            x.stmts = out
            return x
        b = transform(b, items)
        gen = set(re.findall(r"\w+", (sig.get("generics") or "") + " " + (h["generics"] if h else "")))
        self_name = re.match(r"(?:&\s*(?:'\w+\s*)?(?:mut\s+)?)?(\w+)", h["type"]).group(1) if h else ""
        used = {}

        def pats(p):
            return re.sub(r"(?<![\w:])[A-Z]\w*", lambda m: al.get(m.group(), m.group()), p) if al else p

        def const(p):
            if p in local:
                return p, local[p]
            m = re.match(r"^(?:(?:[a-z_]\w*)::)*([A-Z][A-Z0-9_]*)$", p)
            if m and m.group(1) not in gen and m.group(1) in src.consts:
                return m.group(1), src.consts[m.group(1)]
            m = re.match(r"^(\w+)::([A-Z][A-Z0-9_]*)$", p)
            if m:
                k = (self_name if m.group(1) == "Self" else m.group(1)) + "::" + m.group(2)
                if k in src.consts and k not in ("PointN::DIM",):
                    return m.group(2), src.consts[k]
            return None

        def rew(e):
            if e.k in ("path", "struct", "call") and isinstance(getattr(e, "p", None), str):
                m = re.match(r"^(\w+)(.*)$", e.p, re.S)
                if m and m.group(1) in al and m.group(1) not in gen:
                    e.p = al[m.group(1)] + m.group(2)
            if e.k == "match":
                e.arms = [(pats(p), g, bb) for p, g, bb in e.arms]
            if e.k in ("let", "for", "letcond") and isinstance(getattr(e, "pat", None), str):
                e.pat = pats(e.pat)
            if e.k == "path":
                c = const(e.p)
                if c:
                    ty, init = c[1]
                    if isinstance(init, list):
                        init = parse_body(*[(t2, i2[0]) for t2, i2 in [scan_items("fn f() { " + join_tokens(init) + " }")]][0]).tail
                    if init.k == "path" and re.match(r"^((core|std)::)?(f64|NativeFloat)(::consts)?::EPSILON$|^<(f64|NativeFloat)>::EPSILON$", init.p):
                        return N("path", p="f64::EPSILON")
                    nm = "k_" + c[0].lower()
                    if nm not in used:
                        used[nm] = None
                        used[nm] = (ty, transform(copy.deepcopy(init), rew))
                    elif used[nm] is None:
                        self.err(f"constant {c[0]} is defined by itself")
                    return N("path", p=nm)
            return e
        b = transform(b, rew)
        if used:
            b.stmts[:0] = [N("let", pat=nm, ty=ty, init=e, els=None, attrs=[]) for nm, (ty, e) in used.items()]
            self.g.log.append("R20")
        return b

    # ---------------------------------------------------------------- R8 inlining
    def inline(self, blk, depth=0):
        if depth > 4:
            self.err("inlining too deep")
        g = self

        def callee(e):
            if e.k == "mcall":
                if e.e.k == "path" and e.e.p == "self" and g.self_name:
                    k = f"{g.self_name}::{e.m}"
                    if k in g.g.src.fns and not g.known(k):
                        return k, e.args
                kd = g.quick_kind(e.e) or ""
                if kd == "pt" and g.default_method(e.m):
                    return g.default_method(e.m), [e.e] + e.args
                if kd.startswith("st:") and e.e.k == "path" and re.match(r"^\w+$", e.e.p):
                    k = f"{kd[3:]}::{e.m}"
                    if k in g.g.src.fns and not g.known(k):
                        return k, e.args
            if e.k == "call" and e.f.k == "path":
                p = re.sub(r"\s*::\s*<[^()]*>$", "", e.f.p)
                m = re.match(r"^(Self|[A-Z]\w*)(?:::<.*>)?::(\w+)$", p)
                if m and m.group(1) in ("P", "Point") and g.default_method(m.group(2)):
                    return g.default_method(m.group(2)), e.args
                if m:
                    ty = g.self_name if m.group(1) == "Self" else m.group(1)
                    k = f"{ty}::{m.group(2)}"
                    if k in g.g.src.fns and not g.known(k):
                        return k, e.args
                if re.match(r"^(super::|crate::)*\w+$", p):
                    k = p.split("::")[-1]
                    if k in g.g.src.fns and not g.known(k):
                        return k, e.args
            return None

        def rew(e):
            r = callee(e)
            if not r:
                return e
            k, args = r
            rel, toks, it, h = g.g.src.get(k)
            sig = split_sig(toks, it)
            b = norm.early_returns(g.panics(g.resolve(parse_body(toks, it), rel, sig, h)))
            b = g.norm.chains(g.norm.counted(g.norm.patterns(g.norm.closures(b))))
            if any(x.k == "return" for x in walk(b)) and getattr(e, "tailpos", False):
                # the value of the helper is the value of the function: a return in the one is a return in the other
                b = g.panics(g.resolve(parse_body(toks, it), rel, sig, h))
                b = g.norm.chains(g.norm.counted(g.norm.patterns(g.norm.closures(b))))
                g.mark_tail(b)
            else:
                if any(x.k == "return" for x in walk(b)):
                    b = norm.predicate(b)
                for x in walk(b):
                    if x.k in ("return", "try"):
                        g.err(f"helper {k} cannot be inlined ({x.k})")
            recv = "self"
            if h and h["key"] != g.key.split("::")[0]:
                hn = re.match(r"(?:&\s*)?(\w+)", h["type"]).group(1)
                if hn != g.self_name:
                    for x in walk(b):
                        for at in ("ty", "tf"):
                            if isinstance(getattr(x, at, None), str):
                                setattr(x, at, re.sub(r"\bSelf\b", hn, getattr(x, at)))
                        if x.k == "closure":
                            x.params = [[p_, re.sub(r"\bSelf\b", hn, t_) if t_ else t_] for p_, t_ in x.params]
                        if x.k == "path" and re.match(r"^Self\b", x.p):
                            x.p = re.sub(r"^Self\b", hn, x.p)
                        if x.k == "struct" and re.match(r"^Self\b", x.p):
                            x.p = re.sub(r"^Self\b", hn, x.p)
            g.tmp += 1
            suf = f"__{g.tmp}"
            names = {}
            params = sig["params"]
            args = list(args)
            if params and params[0][1] is None and k.startswith("trait "):
                params = [("self", "P")] + [(p_, re.sub(r"\bSelf\b", "P", t_)) for p_, t_ in params[1:]]
            elif params and params[0][1] is None:
                if params[0][0].replace(" ", "") not in ("&self", "self"):
                    g.err(f"helper {k} takes {params[0][0]}")
                params = params[1:]
                if e.k == "call":
                    r0 = args[0] if args else None
                    if r0 is not None and r0.k == "ref" and not r0.mut:
                        r0 = r0.e
                    if r0 is None or r0.k != "path" or not re.match(r"^\w+$", r0.p):
                        g.err(f"helper {k} called on an expression")
                    recv = r0.p
                    args = args[1:]
                else:
                    recv = e.e.p
            if len(params) != len(args):
                g.err(f"helper {k}: argument count")
            for pat, ty in params:
                if not re.match(r"^(mut )?\w+$", pat):
                    g.err(f"helper {k}: parameter pattern {pat}")
                names[pat.replace("mut ", "")] = pat.replace("mut ", "") + suf
            direct = {}
            for (pat, ty), a in zip(params, args):
                # a reference to a variable: the helper works on the variable itself
                if ty.replace(" ", "").startswith("&") and a.k == "ref" and a.e.k == "path" and re.match(r"^\w+$", a.e.p) and not pat.startswith("mut "):
                    direct[pat] = a.e.p
                    names[pat] = a.e.p
            if any(d in norm.bound(b) for d in direct):
                g.err(f"helper {k} shadows a reference parameter")
            b = rename_locals(b, {n: v for n, v in names.items() if n not in direct}, suf)
            if direct or recv != "self":
                def place(x):
                    if x.k == "un" and x.op == "*" and x.e.k == "path" and x.e.p in direct:
                        return N("path", p=direct[x.e.p])
                    return x
                b = transform(b, place)

                def last(x):
                    if x.k == "path" and x.p in direct:
                        x.p = direct[x.p]
                    elif x.k == "path" and x.p == "self":
                        x.p = recv
                    return x
                b = transform(b, last)
            b = g.inline(b, depth + 1)
            pre = []
            for (pat, ty), a in zip(params, args):
                if pat in direct:
                    continue
                nm = names[pat.replace("mut ", "")]
                pre.append(N("let", pat=("mut " if pat.startswith("mut ") else "") + nm, ty=None if re.search(r"\b(impl|" + "|".join(["F", "T"] + own_generics(sig)) + r")\b", ty) else ty, init=a, els=None, attrs=[]))
            g.g.inlined.append(f"{k} into {g.key}")
            return N("block", stmts=pre + b.stmts, tail=b.tail, label=None, inlined=True)
        if depth == 0:
            self.mark_tail(blk)
        return transform(blk, rew)

    def mark_tail(self, blk):
        """calls whose value is the value of the function"""
        def mark(e):
            if e is None:
                return
            if e.k in ("call", "mcall"):
                e.tailpos = True
            elif e.k == "paren":
                mark(e.e)
            elif e.k == "block" and not e.label:
                mark(e.tail)
            elif e.k == "if":
                mark(e.b)
                mark(e.els)
            elif e.k == "match":
                for _, _, b in e.arms:
                    mark(b)
        mark(blk)
        if not any(x.k == "closure" for x in walk(blk)):
            for x in walk(blk):
                if x.k == "return":
                    mark(x.e)

    def known(self, k):
        return k in self.g.ct

    def default_method(self, m):
        """the key of a default method of the trait Point that no implementation overrides"""
        k = f"trait Point::{m}"
        if k in self.g.src.fns and not any(re.match(r"^(\w+::)*Point for .*::" + m + "$", x) for x in self.g.src.fns):
            return k
        return None

    # flatten `let x = { stmts; tail };` and tail blocks, so that hints see straight-line code
    def flatten(self, blk):
        def fl(b):
            if b.k != "block":
                return b
            out = []
            for s in b.stmts:
                if s.k in ("let", "expr"):
                    e = s.init if s.k == "let" else s.e
                    if e is not None:
                        pre, e2 = self.hoist(e, True)
                        out.extend(pre)
                        if s.k == "let":
                            s.init = e2
                        else:
                            s.e = e2
                out.append(s)
            b.stmts = out
            if b.tail is not None:
                pre, b.tail = self.hoist(b.tail, True)
                b.stmts.extend(pre)
            return b
        return self.carried(self.aliases(self.copies(transform(blk, fl))))

    def carried(self, blk):
        """the arguments and results of an inlined helper:  let y = x;  with x not changed below: y is x;
        let mut y = x;  with x a local of the same block that is not used below: y goes on as x;  (e0, .., en).k: the parts, then the k-th"""
        def single(p):
            return re.match(r"^\w*[a-z]\w*$", p) is not None

        def go(b):
            if b.k != "block":
                return b
            i = 0
            while i < len(b.stmts):
                s = b.stmts[i]
                if s.k == "let" and s.els is None and s.init is not None and s.init.k == "field" and s.init.e.k in ("tuple", "paren"):
                    pre, s.init = self.part(s.init)
                    b.stmts[i:i] = pre
                    i += len(pre)
                if s.k == "let" and s.els is None and s.init is not None and re.match(r"^self\.[a-z_]\w*$", unparse(s.init)) and re.match(r"^\w+__\d+$", s.pat):
                    # a field of self, which no statement of the function changes
                    rest = N("block", stmts=b.stmts[i + 1:], tail=b.tail, label=None)
                    if any(t is None and "mut" not in n for n, t in self.sig["params"]) and s.pat not in norm.bound(rest) and not any(z.k in ("macro", "raw") and re.search(rf"\b{s.pat}\b", str(getattr(z, "s", getattr(z, "body", "")))) for z in walk(rest)) \
                            and not any(z.k == "struct" and any(v is None and n == s.pat for n, v in z.fs) for z in walk(rest)):
                        y, e0 = s.pat, s.init
                        rest = transform(rest, lambda z: copy.deepcopy(e0) if z.k == "path" and z.p == y else z)
                        b.stmts, b.tail = b.stmts[:i] + rest.stmts, rest.tail
                        continue
                if s.k == "let" and s.els is None and s.init is not None and s.init.k == "path" and single(s.init.p) and s.init.p != "self" and re.match(r"^(mut )?\w+__\d+$", s.pat):
                    y, x = s.pat.replace("mut ", ""), s.init.p
                    rest = N("block", stmts=b.stmts[i + 1:], tail=b.tail, label=None)
                    named = {n for z in walk(rest) if z.k in ("macro", "raw") for n in re.findall(r"\w+", str(getattr(z, "s", getattr(z, "body", ""))))}
                    ch = norm.assigned(rest) | {norm.base_var(z.e) for z in walk(rest) if z.k == "mcall" and z.m in MUTATORS} | {norm.base_var(z.e) for z in walk(rest) if z.k in ("ref", "un") and getattr(z, "mut", False)}
                    js = [j for j in range(i) if b.stmts[j].k == "let" and b.stmts[j].pat in (x, "mut " + x)]
                    if not ({x, y} & norm.bound(rest)) and not ({x, y} & named):
                        if not s.pat.startswith("mut ") and x not in ch:
                            rest = norm.rename(rest, {y: x})
                            b.stmts, b.tail = b.stmts[:i] + rest.stmts, rest.tail
                            continue
                        if s.pat.startswith("mut ") and len(js) == 1 and x not in norm.paths(rest) and (b.stmts[js[0]].pat != x or x not in norm.paths(N("block", stmts=b.stmts[js[0] + 1:i], tail=None, label=None))):
                            b.stmts[js[0]].pat = "mut " + x
                            rest = norm.rename(rest, {y: x})
                            b.stmts, b.tail = b.stmts[:i] + rest.stmts, rest.tail
                            continue
                i += 1
            if b.tail is not None and b.tail.k == "field" and b.tail.e.k in ("tuple", "paren"):
                pre, b.tail = self.part(b.tail)
                b.stmts.extend(pre)
            return b
        return transform(blk, go)

    def part(self, e):
        t = e.e
        while t.k == "paren":
            t = t.e
        if t.k != "tuple" or not str(e.f).isdigit() or int(e.f) >= len(t.es):
            return [], e
        self.parts = getattr(self, "parts", 0) + 1
        ns = [f"part{n}__t{self.parts}" for n in range(len(t.es))]
        return [N("let", pat=n, ty=None, init=v, els=None, attrs=[]) for n, v in zip(ns, t.es)], N("path", p=ns[int(e.f)])

    def copies(self, blk):
        """let mut y = x; ..y..; x = y;  with x a local that is not used in between and y not used afterwards: y is x"""
        def go(b):
            if b.k != "block":
                return b
            i = 0
            while i < len(b.stmts):
                s = b.stmts[i]
                if s.k == "let" and s.els is None and s.init is not None and s.init.k == "path" and re.match(r"^mut \w+__\d+$", s.pat) and re.match(r"^\w+$", s.init.p):
                    y, x = s.pat[4:], s.init.p
                    j = next((j for j in range(i + 1, len(b.stmts)) if b.stmts[j].k == "expr" and b.stmts[j].e.k == "assign" and b.stmts[j].e.op == "="
                              and unparse(b.stmts[j].e.l) == x and unparse(b.stmts[j].e.r) == y), None)
                    if j is not None:
                        mid = N("block", stmts=b.stmts[i + 1:j], tail=None, label=None)
                        rest = N("block", stmts=b.stmts[j + 1:], tail=b.tail, label=None)
                        if x not in norm.paths(mid) | norm.bound(mid) and y not in norm.paths(rest) and y not in norm.bound(mid) and not any(z.k in ("macro", "raw", "return", "try", "break", "continue") for z in walk(mid)):
                            b.stmts = b.stmts[:i] + norm.rename(mid, {y: x}).stmts + b.stmts[j + 1:]
                            continue
                i += 1
            return b
        return transform(blk, go)

    def aliases(self, blk):
        """let mut y = ..; ..; let x = y;  with y a local of an inlined body that is not used again: x is y"""
        def go(b):
            if b.k != "block":
                return b
            i = 0
            while i < len(b.stmts):
                s = b.stmts[i]
                if s.k == "let" and s.init is not None and s.init.k == "path" and "__" in s.init.p and re.match(r"^(mut )?\w+$", s.pat):
                    y, x = s.init.p, s.pat.replace("mut ", "")
                    js = [j for j in range(i) if b.stmts[j].k == "let" and b.stmts[j].pat in (y, "mut " + y)]
                    mid = N("block", stmts=b.stmts[js[0]:i], tail=None, label=None) if len(js) == 1 else None
                    rest = N("block", stmts=b.stmts[i + 1:], tail=b.tail, label=None)
                    if mid is not None and b.stmts[js[0]].pat.startswith("mut ") and x != y and y not in norm.paths(rest) and x not in norm.paths(mid) | norm.bound(mid) and not any(
                            z.k in ("macro", "raw") and re.search(rf"\b{y}\b", str(getattr(z, "s", getattr(z, "body", "")))) for z in walk(mid)):
                        if s.ty and mid.stmts[0].ty is None:
                            mid.stmts[0].ty = s.ty
                        mid = norm.rename(mid, {y: x})
                        b.stmts = b.stmts[:js[0]] + mid.stmts + b.stmts[i + 1:]
                        continue
                i += 1
            return b
        return transform(blk, go)

    def hoist(self, e, top=False):
        """pull plain inlined blocks out of an expression in evaluation position (left to right, pure code)"""
        pre = []

        def h(x):
            if x.k == "block" and not x.label and x.tail is not None and getattr(x, "inl", True) and x is not e0:
                return x
            return x
        e0 = e
        if e.k == "block" and e.tail is not None and not e.label and e.stmts and all(s.k in ("let",) for s in e.stmts):
            pre.extend(e.stmts)
            return pre, e.tail
        if e.k == "block" and getattr(e, "inlined", False) and not e.label and e.stmts and (e.tail is not None or top):
            # the body of a helper, whose locals have names of their own
            own = norm.bound(e)
            ch = norm.assigned(e)
            for x in walk(e):
                if x.k == "mcall" and x.m in MUTATORS and norm.base_var(x.e):
                    ch.add(norm.base_var(x.e))
            if (top or not any(x.k == "return" for x in walk(e))) and ch <= own and e.tail is not None:
                pre.extend(e.stmts)
                return pre, e.tail
        if e.k == "if" and e.c.k != "letcond" or e.k == "match":
            f = "c" if e.k == "if" else "e"
            p, v = self.hoist(getattr(e, f))
            pre.extend(p)
            setattr(e, f, v)
        if e.k == "return" and e.e is not None:
            p, e.e = self.hoist(e.e, True)
            pre.extend(p)
        if e.k in ("bin", "paren", "un", "struct", "tuple", "call", "mcall", "field", "assign") :
            if e.k == "bin" and e.op in ("&&", "||"):
                p, e.l = self.hoist(e.l)
                return p, e
            for f in (["l", "r"] if e.k == "bin" else ["e"] if e.k in ("paren", "un", "field") else ["r"] if e.k == "assign" else []):
                p, v = self.hoist(getattr(e, f))
                pre.extend(p)
                setattr(e, f, v)
            if e.k == "struct":
                nf = []
                for n, v in e.fs:
                    if v is not None:
                        p, v = self.hoist(v)
                        pre.extend(p)
                    nf.append((n, v))
                e.fs = nf
            if e.k == "tuple":
                es = []
                for v in e.es:
                    p, v = self.hoist(v)
                    pre.extend(p)
                    es.append(v)
                e.es = es
            if e.k in ("call", "mcall"):
                if e.k == "mcall":
                    p, e.e = self.hoist(e.e)
                    pre.extend(p)
                es = []
                for v in e.args:
                    p, v = self.hoist(v)
                    pre.extend(p)
                    es.append(v)
                e.args = es
        return pre, e

    # ---------------------------------------------------------------- mechanical rewrites
    def rewrites(self, blk):
        g = self
        DIMTXT = "DIM" if self.c.get("dim_param") else "P::dim_exec()"
        consts = self.c.get("consts", {})

        def lit(e):
            s = e.s.replace("_", "")
            s = re.sub(r"(f32|f64)$", "", s)
            v = F(s.rstrip(".") if not s.endswith(".") else s[:-1])
            return v

        def seg_from(e):
            k = "BezierSegment::from_" + g.quick_kind(e)[3:]
            if k in g.g.ct and k not in g.g.called:
                g.g.called.append(k)
            return N("call", f=N("path", p=k.lower().replace("beziersegment", "BezierSegment")), args=[e])

        def is_cnt(e):
            # X.into_iter().enumerate() or X.iter().enumerate()
            if e.k == "mcall" and e.m == "enumerate" and e.e.k == "mcall" and e.e.m in ("into_iter", "iter") and not e.args:
                return e.e.e
            return None

        def rew(e):
            if e.k == "lit" and e.t == "float":
                return N("raw", s=f"nf_lit(Ghost({RG.rlit(lit(e))}))", num=lit(e))
            if e.k == "mcall" and e.m in ("iter", "iter_mut") and not e.args and (g.quick_kind(e.e) or "").startswith("arr:") and g.c.get("iters"):
                return N("call", f=N("path", p="arr_" + e.m), args=[N("ref", e=e.e, mut=e.m == "iter_mut")])
            if e.k == "call" and e.f.k == "path" and e.f.p in ("IntoIterator::into_iter", "core::iter::IntoIterator::into_iter") and g.c.get("iters"):
                return N("call", f=N("path", p="arr_into_iter"), args=e.args)
            if e.k == "mcall" and e.m == "into_iter" and not e.args and (g.quick_kind(e.e) or "").startswith("arr:") and g.c.get("iters"):
                return N("call", f=N("path", p="arr_into_iter"), args=[e.e])
            if e.k == "mcall" and e.m == "into" and not e.args and (g.quick_kind(e.e) or "") in ("st:LineSegment", "st:QuadraticBezier", "st:CubicBezier"):
                return seg_from(e.e)
            if e.k == "call" and e.f.k == "path" and re.match(r"^(BezierSegment|Self)(::<.*>)?::from$", e.f.p) and len(e.args) == 1 and (g.self_name == "BezierSegment" or not e.f.p.startswith("Self")) and (g.quick_kind(e.args[0]) or "") in ("st:LineSegment", "st:QuadraticBezier", "st:CubicBezier"):
                return seg_from(e.args[0])
            if e.k == "cast" and e.ty in ("NativeFloat", "f64"):
                return N("call", f=N("path", p="nf_cast"), args=[e.e])
            if e.k == "path":
                if e.p in ("f64::EPSILON", "NativeFloat::EPSILON", "core::f64::EPSILON", "std::f64::EPSILON"):
                    return N("raw", s="nf_eps()", eps=True)
                if e.p in ("P::DIM", "Self::DIM"):
                    return N("raw", s=DIMTXT, dim=True)
                if e.p == "P::Scalar::default":
                    return N("path", p="P::Scalar::s_default")
                for a, b in self.c.get("paths", {}).items():
                    if e.p == a:
                        return N("path", p=b)
            if e.k in ("struct", "path", "call"):
                for a, b in self.c.get("paths", {}).items():
                    if e.k == "struct" and e.p == a:
                        e.p = b
            if e.k == "closure" or e.k == "macro":
                return e
            if e.k == "mcall" and not e.tf:
                kd = g.quick_kind(e.e) or ""
                cc = g.g.ct.get(f"{kd[3:]}::{e.m}") if kd.startswith("st:") else None
                if cc and cc.get("consts"):
                    if any(x not in consts for x in cc["consts"]):
                        g.err(f"constants of {e.m} not available")
                    e.tf = "<" + ", ".join(["_"] * cc.get("own_generics", 0) + [consts[x] for x in cc["consts"]]) + ">"
                    return e
            if e.k == "assign" and e.op in ("+=", "-=", "*=", "/=") and g.quick_kind(e.l) != "int":
                g.g.log.append("R4")
                r = e.r
                return N("assign", op="=", l=e.l, r=N("bin", op=e.op[0], l=copy.deepcopy(e.l), r=N("paren", e=r) if r.k == "bin" else r))
            if e.k == "for":
                x = is_cnt(e.it)
                if x is not None:
                    m = re.match(r"^\((\w+),_\)$", e.pat.replace(" ", ""))
                    if not m:
                        g.err("enumerate loop that uses its item")
                    kd = g.quick_kind(x)
                    if kd == "pt":
                        hi = N("raw", s="P::dim_exec()")
                    elif kd and kd.startswith("arr:"):
                        hi = N("mcall", e=x, m="len", tf=None, args=[])
                    else:
                        g.err(f"enumerate over {unparse(x)}")
                    e.pat = m.group(1)
                    e.it = N("range", lo=N("lit", t="int", s="0"), op="..", hi=hi)
                    return e
            for cst, nm in consts.items():
                if e.k == "bin" and unparse(e).replace(" ", "") == cst.replace(" ", ""):
                    return N("path", p=nm)
                if e.k == "path" and e.p.replace(" ", "") == cst.replace(" ", ""):
                    return N("path", p=nm)
            return e
        blk = transform(blk, rew)

        def tys(e):
            if e.k in ("let", "const") and e.ty is not None:
                e.ty = g.ty(e.ty)
            if e.k == "cast":
                e.ty = g.ty(e.ty)
            return e
        return transform(blk, tys)

    def ty(self, t):
        """types in signatures and lets"""
        t = re.sub(r"\bNativeFloat\b", "NF", t)
        t = re.sub(r"ArrayVec\s*<\s*\[(.*?)\s*;\s*([^\]]*)\]\s*>", r"AVec<\1, \2>", t)
        for a, b in self.c.get("consts", {}).items():
            pat = r"\s*".join(re.escape(x.s) for x in lex(a))
            t = re.sub(r"\{\s*" + pat + r"\s*\}", b, t)
            t = re.sub(r"(?<![\w])" + pat + r"(?![\w])", b, t)
        if self.c.get("dim_param"):
            t = re.sub(r"\b(P|Self)::DIM\b", "DIM", t)
        t = re.sub(r"\{\s*(\w+)\s*\}", r"\1", t)
        t = re.sub(r"'\w+\s*", "", t)
        return t

    # kinds before the statement walk (parameters, annotated and simple lets)
    def quick_kind(self, e):
        try:
            return self.kind(e)
        except Unsupported:
            return None

    def prescan(self, blk):
        for pat, ty in self.sig["params"]:
            if ty is not None:
                self.vars[pat.replace("mut ", "")] = kind_of_type(ty, self.self_name)
        self.vars["self"] = "st:" + self.self_name
        def pat(p):
            for m in re.finditer(r"(\w+)\s*::\s*(\w+)\s*\(([^()]*)\)", p):
                en = self.self_name if m.group(1) == "Self" else m.group(1)
                for x, t in zip(m.group(3).split(","), self.g.src.variant(en, m.group(2))):
                    x = re.sub(r"\b(ref|mut)\b|&", "", x).strip()
                    if re.match(r"^[a-z_]\w*$", x) and x != "_":
                        k = kind_of_type(t, en)
                        if k and self.vars.get(x, k) == k:
                            self.vars[x] = k
        for _ in range(3):
            for s in walk(blk):
                if s.k == "match":
                    for p_, g_, b_ in s.arms:
                        pat(p_)
                if s.k == "letcond" or (s.k == "let" and s.els is not None):
                    pat(s.pat)
                if s.k == "let" and s.init is not None and re.match(r"^\((mut )?\w+, *(mut )?\w+\)$", s.pat):
                    t, k = self.ret_text(s.init), self.quick_kind(s.init.e) if s.init.k == "mcall" else None
                    m = re.match(r"^\(\s*(\w+)\s*,\s*(\w+)\s*\)$", t or "")
                    if m and k:
                        for nm, ty in zip(re.findall(r"\w+", s.pat.replace("mut ", "")), m.groups()):
                            kd = kind_of_type(ty, k[3:])
                            if kd and nm != "_" and self.vars.get(nm, kd) == kd:
                                self.vars[nm] = kd
                if s.k == "let" and re.match(r"^(mut )?\w+$", s.pat):
                    nm = s.pat.replace("mut ", "")
                    if s.pat.startswith("mut "):
                        self.muts.add(nm)
                    k = kind_of_type(s.ty, self.self_name) if s.ty else (self.quick_kind(s.init) if s.init is not None else None)
                    if k:
                        self.vars[nm] = k
                if s.k == "for" and re.match(r"^\w+$", s.pat) and s.it.k == "range":
                    self.vars[s.pat] = "int"
                if s.k == "for" and s.it.k == "mcall" and s.it.m == "rev":
                    self.vars[s.pat] = "int"

    RET = {"axis": "num", "squared_length": "num", "sqrt": "num", "abs": "num", "max": "num", "min": "num", "s_default": "num", "epsilon": "num"}

    def kind(self, e):
        k = e.k
        if k == "paren":
            return self.kind(e.e)
        if k == "raw":
            return "num" if hasattr(e, "num") or hasattr(e, "eps") else "int" if hasattr(e, "dim") else None
        if k == "lit":
            return {"float": "num", "int": "int"}.get(e.t)
        if k == "path":
            if e.p in self.vars:
                return self.vars[e.p]
            if e.p in ("N", "D", "C", "K", "DIM") or e.p in self.c.get("consts", {}).values():
                return "int"
            return None
        if k == "field":
            b = self.kind(e.e)
            if b == "pt" and e.f == "0" and self.self_name == "PointN":
                return "arr:T"
            if b and b.startswith("st:"):
                st = b[3:]
                if st == "PointN" and e.f == "0":
                    return "arr:T"
                t = self.g.fields(st).get(e.f)
                return kind_of_type(t, st) if t else None
            return None
        if k == "index":
            b = self.kind(e.e)
            if b and b.startswith("arr:"):
                return b[4:]
            if b == "avec":
                return "num"
            return None
        if k in ("un", "ref"):
            return self.kind(e.e)
        if k == "bin":
            if e.op in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"):
                return "bool"
            a, b = self.kind(e.l), self.kind(e.r)
            if a == "pt":
                return "pt"
            return a or b
        if k == "call":
            if e.f.k == "path":
                p = e.f.p
                if p == "arr_new" and hasattr(e, "elem"):
                    x = self.kind(e.elem)
                    return "arr:" + x if x else None
                if p in ("nf_cast", "nf_lit", "nf_eps", "P::Scalar::from", "P::Scalar::epsilon", "P::Scalar::s_default", "P::Scalar::default"):
                    return "num"
                if p == "P::default":
                    return "pt"
                if p in ("ArrayVec::new", "AVec::new", "ArrayVec::default"):
                    return "avec"
            return None
        if k == "cast":
            return "num" if e.ty in ("NF", "NativeFloat", "f64") else "int"
        if k == "mcall":
            if e.m in self.RET:
                return self.RET[e.m]
            if e.m == "len":
                return "int"
            if e.m == "get" and len(e.args) == 1 and self.kind(e.e) == "avec":
                return "num"
            if e.m == "into":
                return self.kind(e.e)
            b = self.kind(e.e)
            if b == "pt" and self.default_method(e.m):
                rel, toks, it, h = self.g.src.get(self.default_method(e.m))
                return kind_of_type(re.sub(r"\bSelf\b", "P", split_sig(toks, it)["ret"] or ""), "P")
            if b and b.startswith("st:"):
                ck = f"{b[3:]}::{e.m}"
                if ck in self.g.src.fns:
                    rel, toks, it, h = self.g.src.get(ck)
                    return kind_of_type(split_sig(toks, it)["ret"], b[3:])
            return None
        if k == "repeat":
            if e.e.k == "tuple":
                return "arr:pair"
            x = self.kind(e.e)
            return "arr:" + x if x in ("pt", "num") else None
        if k == "struct":
            nm = e.p.split("::")[0].split("<")[0]
            return "st:" + (self.self_name if nm == "Self" else nm)
        if k == "if":
            return self.kind(e.b) or (self.kind(e.els) if e.els is not None else None)
        if k == "block":
            return self.kind(e.tail) if e.tail is not None else None
        if k == "match":
            return next((x for x in (self.kind(b) for _, _, b in e.arms) if x), None)
        return None

    # ---------------------------------------------------------------- spec terms for hints
    def ispec(self, e):
        """integer expression in spec syntax"""
        k = e.k
        if k == "paren":
            return f"({self.ispec(e.e)})"
        if k == "lit" and e.t == "int":
            return re.sub(r"[ui](8|16|32|64|128|size)$", "", e.s)
        if k == "path":
            return f"({e.p} as int)" if not e.p[0].isdigit() else e.p
        if k == "bin" and e.op in "+-*":
            return f"({self.ispec(e.l)} {e.op} {self.ispec(e.r)})"
        if k == "mcall" and e.m == "len":
            return f"({self.aspec(e.e)}@.len() as int)"
        raise RG.NotRing("int " + k)

    def aspec(self, e):
        """place expression in spec syntax"""
        k = e.k
        if k == "paren":
            return self.aspec(e.e)
        if k == "path":
            return self.snap.get(e.p, e.p)
        if k == "field":
            return f"{self.aspec(e.e)}.{e.f}"
        if k == "index":
            return f"{self.aspec(e.e)}@[{self.ispec(e.i)}]"
        if k == "un" and e.op == "*":
            return f"(*{self.aspec(e.e)})"
        raise RG.NotRing("place " + k)

    def base_var(self, e):
        while e.k in ("field", "index", "paren", "un"):
            e = e.e
        return e.p if e.k == "path" else None

    def rx(self, e, i):
        """ring expression of the value of e (coordinate i for points)"""
        k = e.k
        if k == "paren":
            return self.rx(e.e, i)
        if k == "raw":
            if hasattr(e, "num"):
                return ("c", e.num)
            if hasattr(e, "eps"):
                return ("a", "eps()")
        if k in ("path", "field", "index"):
            kd = self.kind(e)
            if kd == "pt":
                return ("a", f"{self.aspec(e)}.c({i})")
            if kd == "num":
                return ("a", f"{self.aspec(e)}.val()")
            raise RG.NotRing(f"{unparse(e)}: kind {kd}")
        if k == "un":
            if e.op == "-":
                return ("n", self.rx(e.e, i))
            if e.op == "*":
                return self.rx(e.e, i)
        if k == "bin" and e.op in ("+", "-", "*"):
            return (e.op, self.rx(e.l, i), self.rx(e.r, i))
        if k == "bin" and e.op == "/":
            d = self.rx(e.r, i)
            if d[0] == "c" and d[1] != 0:
                return ("/", self.rx(e.l, i), d[1])
            n = self.rx(e.l, i)
            return ("a", f"({RG.espec(n)} / {RG.espec(d)})")
        if k == "mcall":
            if e.m == "into" and not e.args:
                return self.rx(e.e, i)
            if e.m == "axis" and len(e.args) == 1:
                return self.rx(e.e, self.ispec(e.args[0])) if self.kind(e.e) == "pt" else self.bad(e)
            if e.m == "sqrt" and not e.args:
                x = self.rx(e.e, i)
                return ("a", f"rsqrt({RG.espec(x)})")
            if e.m == "abs" and not e.args:
                return ("a", f"rabs({RG.espec(self.rx(e.e, i))})")
            if e.m in ("max", "min") and len(e.args) == 1:
                return ("a", f"r{e.m}({RG.espec(self.rx(e.e, i))}, {RG.espec(self.rx(e.args[0], i))})")
        if k == "call" and e.f.k == "path":
            if e.f.p == "P::Scalar::from":
                return self.rx(e.args[0], i)
            if e.f.p == "P::Scalar::epsilon":
                return ("a", "eps()")
            if e.f.p == "nf_cast":
                a = e.args[0]
                if self.kind(a) == "int":
                    s = self.ispec(a)
                    if re.match(r"^\d+$", s):
                        return ("c", F(s))
                    return ("a", f"({s} as real)")
                return self.rx(a, i)
        raise RG.NotRing(f"{k} {unparse(e)[:40]}")

    def bad(self, e):
        raise RG.NotRing(unparse(e)[:40])

    def has_prod(self, r):
        if r[0] in "ac":
            return False
        if r[0] == "*":
            a, b = RG.poly(r[1], {}), RG.poly(r[2], {})
            if not (RG.is_const(a) or RG.is_const(b)):
                return True
        return any(self.has_prod(x) for x in r[1:] if isinstance(x, tuple))

    def hint_for(self, target, e, kd):
        """proof text establishing the normal form of the value just bound to `target` (spec term)"""
        if kd not in ("pt", "num"):
            return "", None
        try:
            r = self.rx(e, "i__")
            if not self.has_prod(r):
                return "", RG.poly(r, self.env)
            call, p = self.g.ring.lemma(r, self.env_for("i__"))
        except (RG.NotRing, Unsupported):
            return "", None
        if kd == "pt":
            return f"assert forall|i__: int| #[trigger] {target}.c(i__) == {RG.rend(p)} by {{ {call} }}", p
        return f"{call} assert({target}.val() == {RG.rend(p)});", p

    def env_for(self, i):
        return self.env

    # ---------------------------------------------------------------- statement walk with hints
    def hints(self, blk, result):
        out = []
        self.snap = {}
        for s in blk.stmts:
            self.snap = {}
            if s.k == "let" and s.init is not None and re.match(r"^(mut )?\w+$", s.pat):
                nm = s.pat.replace("mut ", "")
                self.nested(s.init)
                kd = (kind_of_type(s.ty, self.self_name) if s.ty else None) or self.quick_kind(s.init)
                shadow = nm in self.names_in(s.init)
                pre = []
                if shadow:
                    self.snap[nm] = f"{nm}__0"
                    pre = [N("raw", s=f"let ghost {nm}__0 = {nm};")]
                t, p = self.hint_for(nm, s.init, kd)
                out.extend(pre if t else [])
                out.append(s)
                if t:
                    out.append(N("raw", s=f"proof {{ {t} }}"))
                # remember the normal form of immutable lets over immutable atoms
                for a in list(self.env):
                    if re.match(rf"^{nm}\b", a) or any(re.search(rf"\b{nm}\b", b) for b in RG.atoms_of(self.env[a])):
                        del self.env[a]
                if not s.pat.startswith("mut ") and not shadow and kd in ("pt", "num") and p is not None and not self.mut_atoms(p):
                    self.env[f"{nm}.c(i__)" if kd == "pt" else f"{nm}.val()"] = p
                self.snap = {}
                if kd:
                    self.vars[nm] = kd
                continue
            if s.k == "let" and s.init is not None:
                self.nested(s.init)
            if s.k == "expr" and s.e.k == "assign" and s.e.op == "=":
                self.nested(s.e.r)
                v = self.base_var(s.e.l)
                kd = self.quick_kind(s.e.l)
                pre = []
                if v and v in self.names_in(s.e.r):
                    self.snap[v] = f"{v}__0"
                    pre = [N("raw", s=f"let ghost {v}__0 = {v};")]
                t, p = self.hint_for(self.target_of(s.e.l), s.e.r, kd) if kd in ("pt", "num") else ("", None)
                self.snap = {}
                out.extend(pre if t else [])
                out.append(s)
                if t:
                    out.append(N("raw", s=f"proof {{ {t} }}"))
                continue
            if s.k == "expr":
                self.nested(s.e)
            out.append(s)
        self.snap = {}
        blk.stmts = out
        if blk.tail is not None:
            self.nested(blk.tail)

    def target_of(self, l):
        try:
            return self.aspec_now(l)
        except RG.NotRing:
            return "?"

    def aspec_now(self, e):
        s, self.snap = self.snap, {}
        try:
            return self.aspec(e)
        finally:
            self.snap = s

    def mut_atoms(self, p):
        return any(re.search(rf"\b{m}\b", a) for a in RG.atoms_of(p) for m in self.muts)

    def names_in(self, e):
        return {x.p for x in walk(e) if x.k == "path"}

    def nested(self, e):
        """recurse into blocks nested in an expression"""
        saved_vars, saved_env = dict(self.vars), dict(self.env)
        if e.k == "block":
            self.hints(e, False)
        elif e.k == "if":
            self.nested(e.c)
            self.hints(e.b, False)
            self.vars, self.env = dict(saved_vars), dict(saved_env)
            if e.els is not None:
                self.nested(e.els)
        elif e.k == "match":
            for p, g, b in e.arms:
                self.nested(b)
                self.vars, self.env = dict(saved_vars), dict(saved_env)
        elif e.k in ("while", "loop", "for"):
            self.hints(e.b, False)
        elif e.k == "return" and e.e is not None:
            pass
        self.vars, self.env = saved_vars, saved_env

    # ---------------------------------------------------------------- loops
    def loops(self, blk):
        inv = self.c.get("loops", {})
        n = [0]
        shape = []

        def form(e):
            if e.k != "for":
                o = e.k
            else:
                r, pre = e.it, ""
                if r.k == "mcall" and r.m == "rev" and not r.args:
                    r, pre = r.e, "rev "
                    while r.k == "paren":
                        r = r.e
                o = f"for {pre}{unparse(r.lo) if r.k == 'range' and r.lo is not None else '?'} {r.op if r.k == 'range' else ''}"
            return o + (" exits" if any(x.k in ("return", "break") for x in walk(e.b)) else "")
        def carried(e):
            """the number of outer variables the loop changes"""
            ch = norm.assigned(e.b)
            for x in walk(e.b):
                if x.k == "mcall" and x.m in MUTATORS and norm.base_var(x.e):
                    ch.add(norm.base_var(x.e))
            return len({v for v in ch if v} - norm.bound(e.b))
        lps = [x for x in walk(blk) if x.k in ("for", "while", "loop")]
        here = [form(x) for x in lps]
        full = [f"{form(x)} [{carried(x)}]" for x in lps]
        # the same function written with other loops: invariants by loop form
        base = self.c.get("base") or self.c.get("shape") or BASE.get(self.key, [])
        for alt in self.c.get("alts", []):
            if any(self.vars.get(x) != y for x, y in alt.get("mk", {}).items()):
                continue
            if alt.get("about") and (len(alt["about"]) != len(lps) or any(x not in norm.assigned(l.b) for x, l in zip(alt["about"], lps))):
                continue
            if any(len(alt["shape"]) == len(y) and all(re.fullmatch(re.escape(a).replace(r"\*", ".*"), b) for a, b in zip(alt["shape"], y)) for y in (here, full)):
                raise OtherForm(alt)

        def offset(i, e):
            """a loop over 0..n where the invariant was written for 1..=n, and the like: the invariant's variable is the source's plus this"""
            a = re.match(r"^for (\d+) ", base[i]) if i < len(base) and len(base) == len(here) else None
            b = re.match(r"^for (\d+) ", form(e))
            return int(a.group(1)) - int(b.group(1)) if a and b else 0

        def visit(e, outer="?"):
            if e is None:
                return
            if e.k in ("for", "while", "loop"):
                i = n[0]
                n[0] += 1
                a = inv.get(i)
                shape.append(full[i])
                if a is None and self.c.get("auto_loops") is None:
                    self.err(f"loop {i} ({e.k}) has no invariant")
                a = a or {}
                if isinstance(a, str):
                    a = {"inv": a}
                want = a.get("kind")
                if want and want != e.k:
                    self.err(f"loop {i} is a {e.k}, invariant was written for a {want}")
                txt = ""
                if e.k == "for":
                    # the loop variable is called by its name in the source; invariants use $i
                    var = e.pat
                    if not re.match(r"^\w+$", var):
                        self.err(f"loop {i}: pattern {var}")
                    if var == "_":
                        var = e.pat = f"k__{i}"
                else:
                    var = "?"
                if a.get("itname"):
                    e.itname = a["itname"] + ": "
                t = a.get("inv", "")
                src_var = var
                if a.get("desugar") and e.k == "for":
                    if e.it.k != "range" or e.it.op != ".." or e.it.lo is None or e.it.hi is None:
                        self.err(f"loop {i}: not an exclusive range")
                    var = f"{e.pat}__it"
                    e.dvars = (var, f"{e.pat}__end")
                    t = f"{var} <= {e.pat}__end, " + t
                    a = dict(a, dec=f"{e.pat}__end - {var}")
                rev = e.k == "for" and e.it.k == "mcall" and e.it.m == "rev" and not e.it.args
                if e.k == "for" and e.it.k == "range" and e.it.op == "..=" and offset(i, e) and e.it.lo is not None and e.it.hi is not None and "decreases" not in a:
                    # the last value of an inclusive range has no successor at usize::MAX
                    v = e.pat
                    it, end, more = f"{v}__it", f"{v}__end", f"{v}__more"
                    e.ivars = (it, end, more)
                    var = f"(if {more} {{ {it} as int }} else {{ {end} + 1 }})"
                    t = f"{it} >= {unparse(e.it.lo)}, {more} ==> {it} <= {end}, " + t
                    a = dict(a, dec=f"if {more} {{ {end} - {it} + 1 }} else {{ 0 }}")
                if rev:
                    rg = e.it.e
                    while rg.k == "paren":
                        rg = rg.e
                    if rg.k != "range" or rg.lo is None or rg.hi is None:
                        self.err(f"loop {i}: reversed iteration over something other than a range")
                    v = e.pat
                    var = f"{v}__it"
                    e.rvars = (var, f"{v}__end", f"{v}__lo", rg)
                    t = f"{var} <= {v}__end, {v}__end >= {v}__lo ==> {var} >= {v}__lo, " + t
                    a = dict(a, dec=var)
                if a.get("inv_except_break"):
                    txt += " invariant_except_break " + a["inv_except_break"].strip().rstrip(",") + ","
                if t:
                    txt += "invariant " + t.strip().rstrip(",") + ","
                if a.get("ens"):
                    txt += " ensures " + a["ens"].strip().rstrip(",") + ","
                if a.get("dec"):
                    txt += " decreases " + a["dec"] + ","
                off = offset(i, e)
                sub = (lambda v: f"(({v} {'+' if off > 0 else '-'} {abs(off)}) as usize)") if off else (lambda v: v)
                e.inv = txt.replace("$i", sub(var))
                var = sub(src_var)
                e.proof_start = a.get("start", "").replace("$i", var)
                e.proof_end = a.get("end", "").replace("$i", var)
                e.proof_before = a.get("before", "").replace("$i", var)
                e.proof_after = a.get("after", "").replace("$i", var)
                # an invariant may be tied to the loop bounds it was written for
                want_it = a.get("it")
                if want_it and e.k == "for":
                    pass
                for a_ in ("inv", "proof_start", "proof_end", "proof_before", "proof_after"):
                    setattr(e, a_, getattr(e, a_).replace("$o", outer))
                outer = var
            for c in children(e):
                visit(c, outer)
        visit(blk)
        self.shape = shape
        if len(inv) > n[0]:
            self.err(f"{n[0]} loops found, {len(inv)} invariants written")

        def place(b):
            if b.k != "block":
                return b
            out = []
            if b.tail is not None and b.tail.k in ("for", "while", "loop") and any(getattr(b.tail, v, None) for v in ("rvars", "dvars", "ivars", "proof_before", "proof_start", "proof_end", "proof_after")):
                b.stmts.append(N("expr", e=b.tail, semi=False, attrs=[]))
                b.tail = None
            for s in b.stmts:
                e = s.e if s.k == "expr" else None
                if e is not None and e.k in ("for", "while", "loop"):
                    if getattr(e, "proof_before", ""):
                        out.append(N("raw", s=e.proof_before))
                    if getattr(e, "proof_start", ""):
                        e.b.stmts.insert(0, N("raw", s=e.proof_start))
                    if getattr(e, "proof_end", ""):
                        if e.b.tail is not None:
                            e.b.stmts.append(N("expr", e=e.b.tail, semi=False, attrs=[]))
                            e.b.tail = None
                        e.b.stmts.append(N("raw", s=e.proof_end))
                    if getattr(e, "rvars", None):
                        # R12: `for i in (a..=b).rev() { B }` -> `let end = b + 1; let lo = a; let mut it = end; while it > lo { it = it - 1; let i = it; B }`
                        v, end, lo, rg = e.rvars
                        hi = rg.hi if rg.op == ".." else N("bin", op="+", l=rg.hi, r=N("lit", t="int", s="1"))
                        out.append(N("let", pat=end, ty="usize", init=hi, els=None, attrs=[]))
                        out.append(N("let", pat=lo, ty="usize", init=rg.lo, els=None, attrs=[]))
                        out.append(N("let", pat="mut " + v, ty="usize", init=N("path", p=end), els=None, attrs=[]))
                        w = N("while", c=N("raw", s=f"{v} > {lo}"), b=e.b, label=e.label)
                        w.inv = e.inv
                        e.b.stmts[:0] = [N("raw", s=f"{v} = {v} - 1;"), N("let", pat=e.pat, ty=None, init=N("path", p=v), els=None, attrs=[])]
                        s = N("expr", e=w, semi=s.semi, attrs=s.attrs)
                    elif getattr(e, "ivars", None):
                        # R12: `for i in a..=b { B }` -> `let mut it = a; let end = b; let mut more = it <= end; while more { let i = it; if it < end { it = it + 1; } else { more = false; } B }`
                        it, end, more = e.ivars
                        out.append(N("let", pat="mut " + it, ty="usize", init=e.it.lo, els=None, attrs=[]))
                        out.append(N("let", pat=end, ty="usize", init=e.it.hi, els=None, attrs=[]))
                        out.append(N("let", pat="mut " + more, ty="bool", init=N("raw", s=f"{it} <= {end}"), els=None, attrs=[]))
                        w = N("while", c=N("raw", s=more), b=e.b, label=e.label)
                        w.inv = e.inv
                        e.b.stmts[:0] = [N("let", pat=e.pat, ty=None, init=N("path", p=it), els=None, attrs=[]), N("raw", s=f"if {it} < {end} {{ {it} = {it} + 1; }} else {{ {more} = false; }}")]
                        s = N("expr", e=w, semi=s.semi, attrs=s.attrs)
                    elif getattr(e, "dvars", None):
                        # R12: `for i in a..b { B }` -> `let mut it = a; let end = b; while it < end { let i = it; it = it + 1; B }`
                        v, end = e.dvars
                        out.append(N("let", pat="mut " + v, ty="usize", init=e.it.lo, els=None, attrs=[]))
                        out.append(N("let", pat=end, ty="usize", init=e.it.hi, els=None, attrs=[]))
                        w = N("while", c=N("raw", s=f"{v} < {end}"), b=e.b, label=e.label)
                        w.inv = e.inv
                        e.b.stmts[:0] = [N("let", pat=e.pat, ty=None, init=N("path", p=v), els=None, attrs=[]), N("raw", s=f"{v} = {v} + 1;")]
                        s = N("expr", e=w, semi=s.semi, attrs=s.attrs)
                    out.append(s)
                    if getattr(e, "proof_after", ""):
                        out.append(N("raw", s=e.proof_after))
                    continue
                out.append(s)
            b.stmts = out
            return b
        return transform(blk, place)

    # ---------------------------------------------------------------- result positions
    def finish(self, blk):
        tails = self.c.get("tail", "")

        def tail_text():
            i = self.tails
            self.tails += 1
            t = tails.get(i, tails.get("*", "")) if isinstance(tails, dict) else tails
            if isinstance(tails, dict):
                # a text for the results in whose scope a variable is
                t = next((v for k, v in tails.items() if isinstance(k, str) and k in scope[-1]), t)
            return self.eqs_text() + t + (" assert(false);" if self.g.vacuity == "tail" else "")

        def facts(path, e, kd):
            """normal forms of the parts of a result"""
            if e.k == "paren":
                return facts(path, e.e, kd)
            if e.k == "struct":
                nm = e.p.split("::")[0].split("<")[0]
                nm = self.self_name if nm == "Self" else nm
                fl = self.g.fields(nm)
                o = ""
                for f, v in e.fs:
                    if v is not None and f in fl:
                        o += facts(f"{path}.{f}", v, kind_of_type(fl[f], nm))
                return o
            if e.k == "tuple":
                return "".join(facts(f"{path}.{i}", v, self.quick_kind(v)) for i, v in enumerate(e.es))
            if e.k == "array":
                return "".join(facts(f"{path}@[{i}]", v, self.quick_kind(v)) for i, v in enumerate(e.es))
            t, p = self.hint_for(path, e, kd or self.quick_kind(e))
            return t + " " if t else ""

        def wrap(e):
            if e.k == "if" and e.els is not None and e.c.k != "letcond_":
                fin(e.b)
                if e.els.k == "block":
                    fin(e.els)
                else:
                    e.els = wrap(e.els)
                return e
            if e.k == "match":
                e.arms = [(p, g, wrap_arm(b)) for p, g, b in e.arms]
                return e
            if e.k == "block" and not e.label:
                fin(e)
                return e
            if e.k == "return":
                return e
            if e.k in ("while", "for", "loop"):
                return e
            self.snap = {}
            fx = facts("r__", e, self.retkind) if self.c.get("hints", True) else ""
            tt = tail_text()
            if not fx and not tt:
                return e
            b = N("block", stmts=[N("let", pat="r__", ty=self.ty(self.sig["ret"]) if self.sig["ret"] and self.c.get("tail_ty") else None, init=e, els=None, attrs=[]),
                                  N("raw", s=f"proof {{ {fx} {tt} }}")], tail=N("path", p="r__"), label=None)
            return b

        def wrap_arm(b):
            r = wrap(b)
            return r

        scope = [set()]

        def names(stmts):
            return {n for x in stmts if x.k == "let" for n in pat_names(x.pat)}

        def fin(b):
            top = scope[-1]
            for i, s in enumerate(b.stmts):
                scope.append(top | names(b.stmts[:i]) | norm.bound(s))
                self.returns(b, wrap, i)
                scope.pop()
            scope.append(top | names(b.stmts))
            fin_(b)
            scope.pop()

        def fin_(b):
            if b.tail is not None:
                r = wrap(b.tail)
                if r.k == "block" and r is not b.tail:
                    b.stmts.extend(r.stmts)
                    b.tail = r.tail
                else:
                    b.tail = r
            elif self.sig["ret"] is None:
                tt = tail_text()
                if tt:
                    b.stmts.append(N("raw", s=f"proof {{ {tt} }}"))
        fin(blk)

    def returns(self, b, wrap, i):
        """early returns: `return e;` -> `{ let r__ = e; proof {..} return r__; }`"""
        def f(x):
            if x.k == "return" and x.e is not None and not getattr(x, "done", False):
                r = wrap(x.e)
                x.done = True
                if r is not x.e:
                    return N("block", stmts=r.stmts + [N("expr", e=N("return", e=r.tail, done=True), semi=True, attrs=[])], tail=None, label=None)
            return x
        b.stmts[i] = transform(b.stmts[i], f)

    # spec side of an equation contract, expanded to the same normal form
    def eqs_text(self):
        o = ""
        for path, kd, fn, args in self.c.get("eqs", []):
            ps, b = self.g.defs.d[fn]
            e = self.g.defs.conv(b, {p: ("a", a) for p, a in zip(ps, args)})
            call, p = self.g.ring.lemma(e, {})
            sp = f"{fn}({', '.join(args)})"
            o += (f"assert forall|i__: int| #[trigger] r__{path}.c(i__) == {sp} by {{ {call} }} " if kd == "pt"
                  else f"{call} assert(r__{path}.val() == {sp}); ")
        return o

    def eqs_ensures(self):
        r = []
        for path, kd, fn, args in self.c.get("eqs", []):
            sp = f"{fn}({', '.join(args)})"
            r.append(f"forall|i__: int| #[trigger] ret{path}.c(i__) == {sp}" if kd == "pt" else f"ret{path}.val() == {sp}")
        return r

    # contracts name parameters and mutable locals; the source may call them differently
    def canonical(self, body):
        mp = {}
        ps = self.sig["params"] = [list(x) for x in self.sig["params"]]
        own = [x for x in ps if x[1] is not None]
        want = self.c.get("params")
        if want:
            if len(want) != len(own):
                self.err("number of parameters changed")
            for x, w in zip(own, want):
                n = x[0].replace("mut ", "")
                if n != w:
                    mp[n] = w
                    x[0] = w
        unshadow(body, {x[0].replace("mut ", "") for x in ps} | {"self"}, self, mp)
        for kind in ("muts", "lets"):
          want = self.c.get(kind)
          if want:
            got = [x.pat.replace("mut ", "") for x in walk(body) if x.k == "let" and re.match(r"^mut \w+$" if kind == "muts" else r"^(mut )?\w+$", x.pat)]
            # names that are there already stay; what is left is matched in the order of definition
            rest, miss = [x for x in got if x not in want], [x for x in want if x not in got]
            kd = self.c.get("mkinds") if kind == "muts" else None
            if kd and miss and len(rest) == len(miss):
                # by type where the order does not tell
                ini = {x.pat.replace("mut ", ""): x for x in walk(body) if x.k == "let"}
                of = {v: (kind_of_type(ini[v].ty, self.self_name) if ini[v].ty else self.quick_kind(ini[v].init)) for v in rest}
                by = [[v for v in rest if of[v] == kd.get(w)] for w in miss]
                if all(len(x) == 1 for x in by):
                    rest = [x[0] for x in by]
            if len(rest) < len(miss):
                said = " ".join(str(v) for l in (self.c.get("loops") or {}).values() for v in l.values())
                spoken = [w for w in miss if re.search(rf"\b{w}\b", said)]
                miss = spoken if len(spoken) == len(rest) and kind == "muts" else miss
            if miss and len(rest) == len(miss) and len(set(got)) == len(got):
                got, want = rest, miss
                m2 = {}
                for x in walk(body):
                    if x.k == "let":
                        for n in pat_names(x.pat):
                            if n in want:
                                m2[n] = n + "__o"
                m2.update(dict(zip(got, want)))
                rename_all(body, m2)
        # the last local of a type, under another name
        for w, kd in self.c.get("last", {}).items():
            tops = [x for x in walk(body) if x.k == "let"]
            if all(x.pat.replace("mut ", "") != w for x in tops):
                c = [x.pat for x in tops if re.match(r"^\w+$", x.pat) and (kind_of_type(x.ty, self.self_name) if x.ty else self.quick_kind(x.init)) == kd]
                if c and sum(x.pat == c[-1] for x in tops) == 1:
                    rename_all(body, {c[-1]: w})
        # what a loop accumulates, where the loops speak of it under another name
        want = (self.c.get("muts") or []) + (self.c.get("lets") or [])
        ls = list(walk(body))
        got = {x.pat.replace("mut ", "") for x in ls if x.k == "let"}
        said = " ".join(str(v) for l in (self.c.get("loops") or {}).values() for v in l.values())
        miss = [w for w in want if w not in got and re.search(rf"\b{w}\b", said)]
        acc = set().union(*[norm.assigned(x) for x in ls if x.k in ("for", "while", "loop")] or [set()])
        rest = [x.pat[4:] for x in ls if x.k == "let" and x.pat.startswith("mut ") and x.pat[4:] in acc and x.pat[4:] not in want]
        if miss and len(rest) == len(miss) and len(set(rest)) == len(rest):
            rename_all(body, dict(zip(rest, miss)))
        # a local of the source never carries the name of a variable the contract quantifies over
        bound = quantified(self.c)
        keep = set(self.c.get("params") or []) | set(self.c.get("muts") or []) | set(self.c.get("lets") or [])
        m2 = {}
        for x in walk(body):
            if x.k in ("let", "for"):
                for n in pat_names(x.pat):
                    if n in bound and n not in keep:
                        m2[n] = n + "__v"
        if m2:
            rename_all(body, m2)
        return body

    def panics(self, blk):
        """R13"""
        def rew(e):
            if e.k == "macro":
                nm = e.p.split("::")[-1]
                if nm in ("assert", "debug_assert"):
                    c = Parser(e.body).expr()
                    return N("if", c=N("un", op="!", e=N("paren", e=c)), b=N("block", stmts=[N("raw", s="vpanic::<()>();")], tail=None, label=None), els=None)
                if nm in ("assert_eq", "debug_assert_eq", "assert_ne", "debug_assert_ne"):
                    p = Parser(e.body)
                    a = p.expr()
                    p.expect(",")
                    b = p.expr()
                    op = "==" if nm.endswith("eq") else "!="
                    return N("if", c=N("un", op="!", e=N("paren", e=N("bin", op=op, l=N("paren", e=a), r=N("paren", e=b)))), b=N("block", stmts=[N("raw", s="vpanic::<()>();")], tail=None, label=None), els=None)
                if nm in ("panic", "unreachable", "todo", "unimplemented"):
                    return N("raw", s="vpanic()")
            return e
        return transform(blk, rew)

    def ret_text(self, e):
        """the return type of a method of the crate"""
        while e.k == "paren":
            e = e.e
        if e.k != "mcall":
            return None
        kd = self.quick_kind(e.e) or ""
        k = f"{kd[3:]}::{e.m}" if kd.startswith("st:") else None
        if k not in self.g.src.fns:
            return None
        rel, toks, it, h = self.g.src.get(k)
        return split_sig(toks, it)["ret"]

    def iter_idioms(self, blk):
        """R7, R15"""
        cnt = [0]

        def px(t):
            return Parser(lex(t)).expr()

        def let(nm, e, mut=False):
            return N("let", pat=("mut " if mut else "") + nm, ty=None, init=e, els=None, attrs=[])

        def st(e):
            return N("expr", e=e, semi=True, attrs=[])

        def unwrap(r):
            while r.k == "paren":
                r = r.e
            return r

        def rew(e):
            if e.k == "mcall" and e.m == "unwrap_or_else" and len(e.args) == 1 and e.args[0].k == "closure" and len(e.args[0].params) == 1:
                c = e.args[0]
                cnt[0] += 1
                return N("match", e=e.e, arms=[(f"Ok(v__{cnt[0]})", None, N("path", p=f"v__{cnt[0]}")), (f"Err({c.params[0][0]})", None, c.body)])
            if e.k == "mcall" and e.m in ("unwrap_or_default", "unwrap_or", "unwrap_or_else"):
                m = re.match(r"^(Result|Option)<(.*)>$", (self.ret_text(e.e) or "").replace(" ", ""))
                arg = None
                if m:
                    inner = m.group(2).split(",")[0]
                    if e.m == "unwrap_or_default" and inner in ("P", "P::Scalar"):
                        arg = px(f"{inner}::default()")
                    elif e.m == "unwrap_or" and len(e.args) == 1:
                        arg = e.args[0]
                    elif e.m == "unwrap_or_else" and len(e.args) == 1 and e.args[0].k == "closure" and not e.args[0].params:
                        arg = e.args[0].body
                if arg is not None:
                    cnt[0] += 1
                    v = f"v__{cnt[0]}"
                    ok, er = ("Ok", "Err(_)") if m.group(1) == "Result" else ("Some", "None")
                    r = N("match", e=e.e, arms=[(f"{ok}({v})", None, N("path", p=v)), (er, None, arg)])
                    if e.m == "unwrap_or" and arg.k not in ("path", "lit"):
                        d = f"d__{cnt[0]}"      # evaluated in any case, after the receiver
                        r = N("block", stmts=[let(f"e__{cnt[0]}", e.e), let(d, arg)], tail=N("match", e=N("path", p=f"e__{cnt[0]}"), arms=[(f"{ok}({v})", None, N("path", p=v)), (er, None, N("path", p=d))]), label=None)
                    return r
            if not (e.k == "mcall" and e.m in ("all", "any") and len(e.args) == 1 and e.args[0].k == "closure" and len(e.args[0].params) == 1):
                return e
            c, r = e.args[0], e.e
            cnt[0] += 1
            n = cnt[0]
            at, hi, res = f"at__{n}", f"hi__{n}", f"all__{n}"
            pat = c.params[0][0].replace(" ", "")
            pre, body = [], copy.deepcopy(c.body)
            if r.k == "mcall" and r.m == "windows" and len(r.args) == 1 and r.args[0].k == "lit":
                X, w = r.e, int(r.args[0].s)
                if not re.match(r"^\w+$", pat):
                    self.err("window pattern " + pat)
                XL = unparse(X) + ".len()"
                pre = [let(at, px("0"), True), let(hi, px(f"if {XL} >= {w} {{ {XL} - {w - 1} }} else {{ 0 }}"))]

                def sub(x):
                    if x.k == "index" and x.e.k == "path" and x.e.p == pat:
                        if x.i.k != "lit" or int(x.i.s) >= w:
                            self.err("window index")
                        return N("index", e=copy.deepcopy(X), i=px(f"{at} + {x.i.s}") if int(x.i.s) else px(at))
                    return x
                body = transform(body, sub)
                if any(x.k == "path" and x.p == pat for x in walk(body)):
                    self.err("window used as a slice")
                inner = []
            elif r.k == "mcall" and r.m == "iter" and not r.args:
                Y = r.e
                while Y.k == "paren":
                    Y = Y.e
                if Y.k == "array" and 1 <= len(Y.es) <= 8:
                    m = re.match(r"^(&?)(\w+)$", pat)
                    mt = re.match(r"^(&?)\((\w+(?:,\w+)*)\)$", pat)
                    tup = [x.es if x.k == "tuple" else None for x in Y.es]
                    if not m and not (mt and all(x and len(x) == len(mt.group(2).split(",")) for x in tup)):
                        self.err("closure pattern " + pat)
                    z = None
                    for q, x in enumerate(Y.es):
                        if mt:
                            mp = {v: f"{v}__e{n}_{q}" for v in mt.group(2).split(",") if v != "_"}
                            bq = norm.rename(copy.deepcopy(body), mp)
                            bq = N("block", stmts=[let(mp[v], y if mt.group(1) else N("ref", e=y, mut=False)) for v, y in zip(mt.group(2).split(","), x.es) if v != "_"], tail=bq, label=None)
                            z = bq if z is None else N("bin", op="&&" if e.m == "all" else "||", l=z, r=bq)
                            continue
                        nm = f"{m.group(2)}__e{n}_{q}"
                        bq = norm.rename(copy.deepcopy(body), {m.group(2): nm})
                        bq = N("block", stmts=[let(nm, x if m.group(1) else N("ref", e=x, mut=False))], tail=bq, label=None)
                        z = bq if z is None else N("bin", op="&&" if e.m == "all" else "||", l=z, r=bq)
                    return N("paren", e=z)
                lo, h = "0", None
                if Y.k == "index" and Y.i.k == "range":
                    X, rg = Y.e, Y.i
                    lo = unparse(rg.lo) if rg.lo is not None else "0"
                    if rg.hi is not None:
                        h = unparse(rg.hi) + (" + 1" if rg.op == "..=" else "")
                else:
                    X = Y
                XL = unparse(X) + ".len()"
                pre = [let(at, px(lo), True), let(hi, px(h or XL)), st(N("if", c=px(f"{at} > {hi} || {hi} > {XL}"), b=N("block", stmts=[N("raw", s="vpanic::<()>();")], tail=None, label=None), els=None))]
                m = re.match(r"^(&?)(\w+)$", pat)
                if not m:
                    self.err("closure pattern " + pat)
                inner = [let(m.group(2), px(("" if m.group(1) else "&") + unparse(X) + f"[{at}]"))]
            elif unwrap(r).k == "range" and unwrap(r).op == ".." and unwrap(r).lo is not None and unwrap(r).hi is not None:
                rg = unwrap(r)
                m = re.match(r"^(\w+)$", pat)
                if not m:
                    self.err("closure pattern " + pat)
                lo, h = unparse(rg.lo), unparse(rg.hi)
                if lo == "0":
                    pre = [let(at, px("0"), True), let(hi, px(h))]
                    inner = [let(m.group(1), px(at))] if m.group(1) != "_" else []
                else:
                    pre = [let(f"lo__{n}", px(lo)), let(at, px("0"), True), let(hi, px(f"if {h} > lo__{n} {{ {h} - lo__{n} }} else {{ 0 }}"))]
                    inner = [let(m.group(1), px(f"{at} + lo__{n}"))] if m.group(1) != "_" else []
            else:
                return e
            body = N("block", stmts=inner, tail=body, label=None) if inner else body
            neg = e.m == "any"
            if neg:
                body = N("un", op="!", e=N("paren", e=body))
            loop = N("while", c=px(f"{res} && {at} < {hi}"), b=N("block", stmts=[st(N("assign", op="=", l=px(res), r=body)), st(N("assign", op="=", l=px(at), r=px(f"{at} + 1")))], tail=None, label=None), label=None)
            return N("block", stmts=pre + [let(res, px("true"), True), N("expr", e=loop, semi=False, attrs=[])], tail=px(("!" if neg else "") + res), label=None)
        return transform(blk, rew)

    def avec_idioms(self, blk):
        """R6"""
        cnt = [0]
        avty = {}

        def px(t):
            return Parser(lex(t)).expr()

        def let(nm, e, mut=False, ty=None):
            return N("let", pat=("mut " if mut else "") + nm, ty=ty, init=e, els=None, attrs=[])

        def st(e):
            return N("expr", e=e, semi=True, attrs=[])

        def isv(e):
            return e.k == "path" and self.quick_kind(e) == "avec"

        def deref(e, v, by):
            """the body of a closure or loop over references to v: every use of v, *v, and references in comparisons"""
            def sub(x):
                if x.k == "un" and x.op == "*" and x.e.k == "path" and x.e.p == v:
                    return N("path", p=by)
                if x.k == "un" and x.op == "*" and x.e.k == "path" and x.e.p == by:
                    return x.e
                if x.k == "bin" and x.op in ("<", ">", "<=", ">=", "==", "!="):
                    x.l, x.r = strip(x.l), strip(x.r)
                return x

            def strip(y):
                while y.k in ("ref", "paren") and (y.k == "ref" or y.e.k == "ref"):
                    y = y.e
                return y
            e = transform(copy.deepcopy(e), sub)

            def ren(x):
                if x.k == "path" and x.p == v:
                    return N("path", p=by)
                return x
            return transform(e, ren)

        def stmt(s):
            e = s.e
            if e.k == "mcall" and e.m == "extend" and isv(e.e) and len(e.args) == 1:
                a = e.args[0]
                if a.k == "mcall" and a.m == "into_iter" and not a.args:
                    a = a.e
                e.m, e.args = "extend_from", [a]
                return [s]
            if e.k == "mcall" and e.m == "retain" and isv(e.e) and len(e.args) == 1 and e.args[0].k == "closure" and len(e.args[0].params) == 1:
                c, X = e.args[0], e.e.p
                cnt[0] += 1
                n = cnt[0]
                m = re.match(r"^&?(mut)?(\w+)$", c.params[0][0].replace(" ", ""))
                if not m:
                    self.err("retain pattern " + c.params[0][0])
                v = m.group(2)
                k, kept = f"k__{n}", f"kept__{n}"
                cond = deref(c.body, v, v)
                if c.body.k == "block" and not c.body.stmts and c.body.tail is not None:
                    cond = deref(c.body.tail, v, v)
                body = [let(v, px(f"{X}.get({k})")),
                        st(N("if", c=cond, b=N("block", stmts=[st(px(f"{kept}.push({v})"))], tail=None, label=None), els=None)),
                        st(px(f"{k} = {k} + 1"))]
                loop = N("while", c=px(f"{k} < {X}.len()"), b=N("block", stmts=body, tail=None, label=None), label=None)
                return [N("raw", s=f"let ghost pre__{n} = {X};"), let(kept, px("ArrayVec::new()"), True, avty.get(X)), let(k, px("0"), True, "usize"),
                        N("expr", e=loop, semi=False, attrs=[]), st(px(f"{X} = {kept}"))]
            if e.k == "for" and e.it.k == "mcall" and e.it.m == "iter_mut" and isv(e.it.e) and re.match(r"^\w+$", e.pat):
                cnt[0] += 1
                n = cnt[0]
                X, v, k = e.it.e.p, e.pat, f"k__{n}"
                if any(x.k in ("break", "continue", "return", "try") for x in walk(e.b)):
                    self.err("iter_mut loop with a jump")
                b = deref(e.b, v, v)
                body = [let(v, px(f"{X}.get({k})"), True)] + b.stmts + ([st(b.tail)] if b.tail is not None else []) + [st(px(f"{X}.set({k}, {v})")), st(px(f"{k} = {k} + 1"))]
                self.vars[v] = "num"
                loop = N("while", c=px(f"{k} < {X}.len()"), b=N("block", stmts=body, tail=None, label=None), label=None)
                return [N("raw", s=f"let ghost pre__{n} = {X};"), let(k, px("0"), True, "usize"), N("expr", e=loop, semi=False, attrs=[])]
            if e.k == "mcall" and e.m in ("sort_unstable_by", "sort_by") and isv(e.e) and len(e.args) == 1 and e.args[0].k == "closure" and len(e.args[0].params) == 2:
                c = e.args[0]
                cnt[0] += 1
                a, b = (x[0].replace(" ", "") for x in c.params)
                if not (re.match(r"^\w+$", a) and re.match(r"^\w+$", b)):
                    self.err("sort closure patterns")
                body = unparse(c.body)
                return [N("raw", s=f"let ghost pre__{cnt[0]} = {e.e.p};"),
                        N("raw", s=f"{e.e.p}.sort_by(|{a}: &P::Scalar, {b}: &P::Scalar| -> (o__: core::cmp::Ordering) requires num(*{a}), num(*{b}) ensures o__ == rcmp({a}.val(), {b}.val()) {{ {body} }});")]
            return [s]

        def blocks(b):
            if b.k != "block":
                return b
            out = []
            for s in b.stmts:
                if s.k == "let" and re.match(r"^(mut )?\w+$", s.pat):
                    kd = kind_of_type(s.ty, self.self_name) if s.ty else (self.quick_kind(s.init) if s.init is not None else None)
                    if kd:
                        self.vars[s.pat.replace("mut ", "")] = kd
                    if kd == "avec" and s.ty:
                        avty[s.pat.replace("mut ", "")] = s.ty
                out += stmt(s) if s.k == "expr" else [s]
            b.stmts = out
            return b
        blk = transform(blk, blocks)

        def rew(e):
            if e.k == "index" and isv(e.e):
                return N("mcall", e=e.e, m="get", tf=None, args=[e.i])
            if e.k == "path" and e.p in ("ArrayVec::new", "ArrayVec::default"):
                return N("path", p="AVec::new")
            return e
        return transform(blk, rew)

    # ---------------------------------------------------------------- emit
    def owned(self, body):
        """R20: a parameter `mut x` is a parameter x and a variable that starts from it"""
        ps = self.sig["params"] = [list(x) for x in self.sig["params"]]
        for x in reversed(ps):
            if x[0].startswith("mut "):
                nm = x[0] = x[0][4:].strip()
                if body is not None:
                    if any(y.k == "macro" for y in walk(body)):
                        self.err("macro in a function with a mut parameter")
                    new = f"{nm}__m"
                    body.stmts[:] = [transform(y, lambda z: (setattr(z, "p", new), z)[1] if z.k == "path" and z.p == nm else z) for y in body.stmts]
                    if body.tail is not None:
                        body.tail = transform(body.tail, lambda z: (setattr(z, "p", new), z)[1] if z.k == "path" and z.p == nm else z)
                    body.stmts.insert(0, N("let", pat="mut " + new, ty=None if x[1] is None or re.search(r"\bimpl\b", x[1]) else x[1], init=N("path", p=nm), els=None, attrs=[]))
        if body is not None and (self.sig["ret"] or "").replace(" ", "") in ("NativeFloat", "f64", "Self::Scalar") and body.tail is not None and body.tail.k == "mcall" and body.tail.m == "sum" and not body.tail.tf:
            body.tail.tf = "<NativeFloat>"

    def emit(self):
        body = copy.deepcopy(self.body)
        self.owned(body)
        body = self.panics(body)
        self.prescan(body)
        self.norm = norm.Norm(self.quick_kind, self.g.log)
        body = transform(self.norm.built(self.norm.patterns(self.norm.closures(body))), norm.leaving)
        self.prescan(body)
        body = self.norm.chains(self.norm.counted(body))
        body = self.inline(body)
        body = self.flatten(body)
        body = self.norm.closures(self.norm.patterns(body))
        body = self.norm.scalars(self.carried(self.aliases(self.copies(body))))
        body = self.canonical(body)
        body = self.iter_idioms(body)
        self.prescan(body)
        body = self.norm.arrays(self.norm.equal(body))
        self.prescan(body)
        body = self.avec_idioms(body)
        self.prescan(body)
        body = self.rewrites(body)
        self.prescan(body)
        for n, k in self.c.get("kinds", {}).items():
            self.vars[n] = k
        self.retkind = kind_of_type(self.sig["ret"], self.self_name)
        for x in walk(body):   # R16: the type of a local the invariants talk about, which rustc infers
            if x.k == "let" and x.ty is None and x.pat.replace("mut ", "") in self.c.get("tys", {}):
                x.ty = self.c["tys"][x.pat.replace("mut ", "")]
        for x in walk(body):
            if x.k == "closure":
                self.err("closure")
            ck = None
            if x.k == "mcall":
                kd = self.quick_kind(x.e) or ""
                ck = f"{kd[3:]}::{x.m}" if kd.startswith("st:") else None
            elif x.k == "call" and x.f.k == "path":
                m = re.match(r"^(\w+)(?:::<.*>)?::(\w+)$", x.f.p)
                if m:
                    ck = f"{self.self_name if m.group(1) == 'Self' else m.group(1)}::{m.group(2)}"
            if ck in self.g.ct and ck not in self.g.called:
                self.g.called.append(ck)
        body = self.loops(body)
        if self.c.get("hints", True):
            self.hints_result(body)
        else:
            self.snap = {}
            self.finish(body)
        st = self.c.get("start", "")
        if self.g.vacuity == "start":
            body.stmts.insert(0, N("raw", s="proof { assert(false); }"))
        if st:
            body.stmts.insert(0, N("raw", s=st))
        return self.signature() + "    " + ublock(body, 1) + "\n"

    def emit_stub(self):
        """the contract only, body assumed (used when the body is outside the verifier's reach; never counted as proved)"""
        self.owned(None)
        self.canonical(N("block", stmts=[], tail=None, label=None))
        return self.signature(["external_body"]) + "    { unimplemented!() }\n"

    def signature(self, attrs=None):
        gens = self.sig["generics"]
        extra = list(self.c.get("generics", []))
        if self.c.get("dim_param"):
            extra.append("const DIM: usize")
        for cst, nm in self.c.get("consts", {}).items():
            extra.append(f"const {nm}: usize")
        if extra:
            inner = gens.strip()[1:-1] if gens else ""
            gens = "<" + ", ".join([x for x in [inner] + extra if x]) + ">"
        ps = ", ".join(self.c.get("self_param", p) if t is None else f"{p}: {self.ty(t)}" for p, t in self.sig["params"])
        ret = self.c.get("ret_type") or (self.ty(self.sig["ret"]) if self.sig["ret"] else None)
        name = self.c.get("rename", self.sig["name"])
        a = "".join(f"    #[verifier::{x}]\n" for x in (attrs or self.c.get("attrs", ["loop_isolation(false)"])))
        s = f"{a}    {'' if self.h and self.h['trait'] else 'pub '}fn {name}{gens}({ps})" + (f" -> (ret: {ret})" if ret else "")
        wh = self.c.get("where", self.sig["where"])
        if wh:
            s += f"\n        where {self.ty(wh) if 'where' not in self.c else wh}"
        s += "\n"
        for kw in ("requires", "ensures", "decreases"):
            t = self.c.get(kw, "").strip().rstrip(",")
            if kw == "ensures":
                t = ", ".join(self.eqs_ensures() + ([t] if t else []))
            if t:
                s += f"        {kw} {t},\n"
        return s

    def hints_result(self, body):
        self.hints_tail(body)

    def hints_tail(self, body):
        # walk statements giving hints; result positions are finished with the environment at that point
        fg = self

        def go(blk):
            out_tail = blk.tail
            fg.hints(blk, True)
        # run hints on the whole tree first (keeps env of the outermost block), then finish
        self.snap = {}
        self.hints(body, True)
        self.finish(body)


def quantified(c):
    """names bound by a quantifier or a ghost `let` in the text of a contract"""
    out = set()

    def go(x):
        if isinstance(x, str):
            for m in re.findall(r"\b(?:forall|exists|choose)\s*\|([^|]*)\|", x):
                out.update(re.findall(r"(\w+)\s*:", m))
            out.update(re.findall(r"\blet\s+(\w+)", x))
        elif isinstance(x, dict):
            for v in x.values():
                go(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                go(v)
    for k in ("loops", "tail", "start", "ensures", "requires", "lets_proof", "hints"):
        go(c.get(k))
    return out


def pat_names(p):
    return [m for m in re.findall(r"(?<![\w:])[a-z_]\w*", p) if m not in ("mut", "ref", "_")]


def rename_all(b, m):
    for e in walk(b):
        if e.k == "path" and e.p in m:
            e.p = m[e.p]
        if e.k in ("let", "for"):
            e.pat = re.sub(r"(?<![\w:])[a-z_]\w*", lambda x: m.get(x.group(), x.group()), e.pat)
        if e.k == "struct":
            e.fs = [(n, v if v is not None else (N("path", p=m[n]) if n in m else None)) for n, v in e.fs]


def unshadow(blk, outer, fg, mp0=None):
    """R11: a local that hides a parameter or an outer local gets a fresh name"""
    cnt = [0]

    def expr(e, sc, mp):
        if e is None or not isinstance(e, N):
            return
        k = e.k
        if k == "path":
            if e.p in mp:
                e.p = mp[e.p]
            return
        if k == "block":
            return block(e, set(sc), dict(mp))
        if k == "for":
            expr(e.it, sc, mp)
            sc2, mp2 = set(sc), dict(mp)
            e.pat = bind(e.pat, sc2, mp2)
            return block(e.b, sc2, mp2)
        if k == "closure":
            mp2 = dict(mp)
            for p in e.params if hasattr(e, "params") else []:
                for n in pat_names(p[0]):
                    mp2.pop(n, None)
            for c in children(e):
                expr(c, sc, mp2)
            return
        if k == "match":
            expr(e.e, sc, mp)
            for i, (p, g, b) in enumerate(e.arms):
                mp2 = dict(mp)
                for n in pat_names(p):
                    mp2.pop(n, None)
                expr(g, sc, mp2)
                expr(b, sc, mp2)
            return
        if k == "struct":
            for i, (n, v) in enumerate(e.fs):
                if v is None:
                    if n in mp:
                        e.fs[i] = (n, N("path", p=mp[n]))
                else:
                    expr(v, sc, mp)
            for c in children(e):
                if all(c is not v for _, v in e.fs):
                    expr(c, sc, mp)
            return
        for c in children(e):
            expr(c, sc, mp)

    def bind(pat, sc, mp):
        def f(m):
            n = m.group()
            if n in ("mut", "ref", "_"):
                return n
            if n in sc:
                cnt[0] += 1
                mp[n] = f"{n}__s{cnt[0]}"
                sc.add(mp[n])
                return mp[n]
            mp.pop(n, None)
            sc.add(n)
            return n
        return re.sub(r"(?<![\w:])[a-z_]\w*", f, pat)

    def block(b, sc, mp):
        for s in b.stmts:
            if s.k == "let":
                expr(s.init, sc, mp)
                expr(s.els, sc, mp)
                s.pat = bind(s.pat, sc, mp)
            elif s.k == "expr":
                expr(s.e, sc, mp)
            else:
                for c in children(s):
                    expr(c, sc, mp)
        expr(b.tail, sc, mp)
    block(blk, set(outer), dict(mp0 or {}))


def rename_locals(b, names, suf):
    """alpha-rename parameters and locals of an inlined helper"""
    names = dict(names)
    for s in walk(b):
        if s.k == "let":
            for m in re.finditer(r"[a-z_]\w*", s.pat):
                if m.group() not in ("mut", "ref", "_"):
                    names.setdefault(m.group(), m.group() + suf)
        if s.k == "for":
            for m in re.finditer(r"[a-z_]\w*", s.pat):
                if m.group() not in ("mut", "ref", "_"):
                    names.setdefault(m.group(), m.group() + suf)
        if s.k == "closure":
            for q in s.params:
                for n in norm.names_of(q[0]):
                    names.setdefault(n, n + suf)
        if s.k == "macro":
            raise Unsupported("macro in helper")

    def sub(p):
        return re.sub(r"(?<![\w:])[a-z_]\w*", lambda m: names.get(m.group(), m.group()), p)

    def f(e):
        if e.k == "path" and e.p in names:
            e.p = names[e.p]
        if e.k in ("let", "for"):
            e.pat = sub(e.pat)
        if e.k == "closure":
            e.params = [[sub(q[0])] + list(q[1:]) for q in e.params]
        if e.k == "struct":
            e.fs = [(n, v if v is not None else (N("path", p=names[n]) if n in names else None)) for n, v in e.fs]
        return e
    return transform(b, f)
