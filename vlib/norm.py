"""Normal forms of loops, closures and patterns (rewrites R17-R19 of vgen.py): every rewrite replaces a construct by the one it abbreviates.

R17  let f = |p, ..| body;  f(a, ..)           -> the body at every call, arguments bound by let (immutable captures only)
     let (a, b) = (x, y);  let [a, b] = e;  let Self { a, b } = *self;  -> one let per name
R18  it.fold(init, |acc, x| e)                 -> let mut acc = init; for x in it { acc = e; }   (also .map(g).fold, .for_each)
     range.all(|i| c), a.iter().zip(b.iter()).all(..) as the result of a function -> for .. { if !(c) { return false; } } true
     let mut i = a; while i < b { ..; i += 1; } -> for i in a..b { .. }        (i assigned nowhere else, no continue, i not used afterwards)
     loop { if c { break; } .. } -> while !(c) { .. }
     for x in a.iter() / a.iter_mut() / a.iter().enumerate() / a.iter().zip(b.iter()) / (array) a -> for k in 0..a.len() with a[k] for *x
R19  a helper that returns early: if c { ..; return e; } rest -> if c { ..; e } else { rest }, so that it can be inlined
"""
import copy
import re

from rustparse import N, Parser, children, lex, transform, unparse, walk


def px(t):
    return Parser(lex(t)).expr()


def st(e):
    return N("expr", e=e, semi=True, attrs=[])


def let(nm, e, mut=False, ty=None):
    return N("let", pat=("mut " if mut else "") + nm, ty=ty, init=e, els=None, attrs=[])


def block(stmts, tail=None):
    return N("block", stmts=stmts, tail=tail, label=None)


def names_of(pat):
    return [m for m in re.findall(r"(?<![\w:])[a-z_]\w*", pat) if m not in ("mut", "ref", "_")]


def bound(e):
    """names bound anywhere inside e"""
    r = set()
    for x in walk(e):
        if x.k in ("let", "for", "letcond"):
            r.update(names_of(x.pat))
        elif x.k == "closure":
            for p in x.params:
                r.update(names_of(p[0]))
        elif x.k == "match":
            for p, _, _ in x.arms:
                r.update(names_of(p))
    return r


def paths(e):
    return {x.p for x in walk(e) if x.k == "path"}


def base_var(e):
    while e.k in ("field", "index", "paren", "un", "ref"):
        e = e.e
    return e.p if e.k == "path" else None


def assigned(e):
    r = set()
    for x in walk(e):
        if x.k == "assign":
            v = base_var(x.l)
            if v:
                r.add(v)
        if x.k == "ref" and getattr(x, "mut", False):
            v = base_var(x.e)
            if v:
                r.add(v)
    return r


class Norm:
    def __init__(self, kind, log):
        self.kind, self.log, self.n, self.lists, self.nl = kind, log, 0, set(), 0

    def fresh(self):
        self.n += 1
        return self.n

    # ------------------------------------------------------------------------------------------ R17
    def closures(self, blk):
        def go(b):
            if b.k != "block":
                return b
            i = 0
            while i < len(b.stmts):
                s = b.stmts[i]
                if s.k == "let" and s.init is not None and s.init.k == "closure" and re.match(r"^\w+$", s.pat):
                    rest = b.stmts[i + 1:]
                    if self.beta(s.pat, s.init, rest, b):
                        b.stmts = b.stmts[:i] + b.stmts[i + 1:]
                        continue
                i += 1
            return b
        return transform(blk, go)

    def beta(self, f, c, rest, b):
        if any(x.k in ("return", "try", "break", "continue", "closure", "macro") for x in walk(c.body)):
            return False
        pats = [p[0] for p in c.params]
        if not all(re.match(r"^(mut )?\w+$", p) for p in pats):
            return False
        free = paths(c.body) - {p.replace("mut ", "") for p in pats}
        whole = block(rest, b.tail)
        if free & bound(whole) or f in bound(whole) or assigned(c.body) & free:
            return False
        calls = [x for x in walk(whole) if x.k == "call" and x.f.k == "path" and x.f.p == f]
        uses = [x for x in walk(whole) if x.k == "path" and x.p == f]
        if len(calls) != len(uses) or any(len(x.args) != len(pats) for x in calls):
            return False

        def sub(e):
            if e.k == "call" and e.f.k == "path" and e.f.p == f:
                n = self.fresh()
                mp = {}
                for p in pats:
                    mp[p.replace("mut ", "")] = p.replace("mut ", "") + f"__c{n}"
                body = copy.deepcopy(c.body)
                for x in walk(body):
                    if x.k == "let":
                        for nm in names_of(x.pat):
                            mp.setdefault(nm, nm + f"__c{n}")
                    if x.k == "for":
                        for nm in names_of(x.pat):
                            mp.setdefault(nm, nm + f"__c{n}")
                body = rename(body, mp)
                lets = [let(mp[p.replace("mut ", "")], a, p.startswith("mut "), None if q[1] is None or re.search(r"\bimpl\b", q[1] or "") else q[1]) for p, q, a in zip(pats, c.params, e.args)]
                if body.k == "block" and not body.label:
                    return block(lets + body.stmts, body.tail)
                return block(lets, body)
            return e
        for k, s in enumerate(rest):
            rest[k] = transform(s, sub)
        i = b.stmts.index(next(x for x in b.stmts if x.k == "let" and x.init is c))
        b.stmts[i + 1:] = rest
        if b.tail is not None:
            b.tail = transform(b.tail, sub)
        self.log.append("R17")
        return True

    # ------------------------------------------------------------------------------------------ R17 patterns
    def patterns(self, blk):
        """let (a, b) = (x, y) / let [a, b] = e / let Self { a, b: c, .. } = place  ->  one let per name"""
        def simple(ps):
            return all(re.match(r"^(mut )?\w+$", p) for p in ps)

        def go(b):
            if b.k != "block":
                return b
            out = []
            for s in b.stmts:
                if s.k == "let" and s.init is not None and s.els is None:
                    pat = s.pat.strip()
                    m = re.match(r"^\((.*)\)$", pat)
                    init = s.init
                    while init.k == "paren":
                        init = init.e
                    if m and init.k == "tuple":
                        ps = [x.strip() for x in m.group(1).split(",") if x.strip()]
                        ns = [x.replace("mut ", "") for x in ps]
                        if simple(ps) and len(ps) == len(init.es) and s.ty is None and len(set(ns)) == len(ns):
                            if all(not (set(ns[:k]) & paths(e)) for k, e in enumerate(init.es)):
                                out += [N("let", pat=p, ty=None, init=e, els=None, attrs=[]) for p, e in zip(ps, init.es) if p != "_"]
                                self.log.append("R17")
                                continue
                    if m and init.k == "if" and s.ty is None and init.c.k != "letcond":
                        # the condition is pure: one conditional per name
                        ps = [x.strip() for x in m.group(1).split(",") if x.strip()]
                        ns = [x.replace("mut ", "") for x in ps]
                        br = [init.b, init.els]
                        tails = [x.tail if x is not None and x.k == "block" and not x.stmts else None for x in br]
                        while any(x is not None and x.k == "paren" for x in tails):
                            tails = [x.e if x is not None and x.k == "paren" else x for x in tails]
                        pure = all(x.k in ("path", "field", "lit", "bin", "paren", "un", "index", "tuple", "if", "block") or (x.k == "mcall" and x.m in ("axis", "len", "into", "squared_length", "abs", "sqrt")) for x in walk(init))
                        if simple(ps) and pure and all(x is not None and x.k == "tuple" and len(x.es) == len(ps) for x in tails) and len(set(ns)) == len(ns) and not set(ns) & paths(init):
                            for q, p in enumerate(ps):
                                if p != "_":
                                    out.append(N("let", pat=p, ty=None, init=N("if", c=copy.deepcopy(init.c), b=block([], tails[0].es[q]), els=block([], tails[1].es[q])), els=None, attrs=[]))
                            self.log.append("R17")
                            continue
                    m = re.match(r"^\[(.*)\]$", pat)
                    if m:
                        ps = [x.strip() for x in m.group(1).split(",") if x.strip()]
                        if simple(ps) and s.ty is None:
                            t = f"arr__t{self.fresh()}"
                            out.append(let(t, s.init))
                            out += [N("let", pat=p, ty=None, init=N("index", e=N("path", p=t), i=px(str(k))), els=None, attrs=[]) for k, p in enumerate(ps) if p != "_"]
                            self.log.append("R17")
                            continue
                    m = re.match(r"^([A-Z]\w*|Self)\s*\(\s*((?:mut )?\w+)\s*\)$", pat)
                    if m and m.group(1) not in ("Some", "Ok", "Err") and s.ty is None and (init.k == "path" or (init.k == "un" and init.op == "*")):
                        x = init.e if init.k == "un" else init
                        if x.k == "path" and re.match(r"^\w+$", x.p):
                            out.append(N("let", pat=m.group(2), ty=None, init=N("field", e=x, f="0"), els=None, attrs=[]))
                            self.log.append("R17")
                            continue
                    m = re.match(r"^(&?)\s*[A-Z]\w*\s*\{(.*)\}$", pat)
                    if m:
                        x = init
                        while x.k in ("ref", "un", "paren") and (x.k != "un" or x.op == "*"):
                            x = x.e
                        fs = [q.strip() for q in m.group(2).split(",") if q.strip() and q.strip() != ".."]
                        fs = [[z.strip() for z in q.split(":")] for q in fs]
                        # by value only: through a reference the names would be references
                        val = bool(m.group(1)) or (init.k == "un" and init.op == "*")
                        if x.k == "path" and re.match(r"^\w+$", x.p) and val and all(len(q) <= 2 and re.match(r"^\w+$", q[-1]) for q in fs) and x.p not in [q[-1] for q in fs]:
                            out += [N("let", pat=q[-1], ty=None, init=N("field", e=N("path", p=x.p), f=q[0]), els=None, attrs=[]) for q in fs if q[-1] != "_"]
                            self.log.append("R17")
                            continue
                out.append(s)
            b.stmts = out
            return b
        return transform(blk, go)

    def scalars(self, blk):
        """let t = [e0, e1];  with t used only as t[0], t[1]  (or a tuple used as t.0, t.1)  ->  one let per element"""
        def go(b):
            if b.k != "block":
                return b
            i = 0
            while i < len(b.stmts):
                s = b.stmts[i]
                e = s.init if s.k == "let" and s.els is None else None
                while e is not None and e.k == "paren":
                    e = e.e
                if e is not None and e.k in ("array", "tuple") and re.match(r"^\w+$", s.pat) and e.es:
                    t = s.pat
                    rest = block(b.stmts[i + 1:], b.tail)

                    def use(x):
                        if e.k == "array":
                            ok = x.k == "index" and x.e.k == "path" and x.e.p == t and x.i.k == "lit" and re.match(r"^\d+$", x.i.s)
                            return int(x.i.s) if ok and int(x.i.s) < len(e.es) else None
                        ok = x.k == "field" and x.e.k == "path" and x.e.p == t and re.match(r"^\d+$", str(x.f))
                        return int(x.f) if ok and int(x.f) < len(e.es) else None
                    good = sum(1 for x in walk(rest) if use(x) is not None)
                    if good and good == sum(1 for x in walk(rest) if x.k == "path" and x.p == t) and t not in bound(rest) and t not in assigned(rest) and not any(x.k in ("closure", "macro") for x in walk(rest)):
                        rest = transform(rest, lambda x: N("path", p=f"{t}__{use(x)}") if use(x) is not None else x)
                        b.stmts = b.stmts[:i] + [let(f"{t}__{q}", v) for q, v in enumerate(e.es)] + rest.stmts
                        b.tail = rest.tail
                        self.log.append("R17")
                        i += len(e.es)
                        continue
                i += 1
            return b
        return transform(blk, go)

    # ------------------------------------------------------------------------------------------ R18 chains
    def source(self, it):
        """(iterator, list of map closures applied to its items)"""
        maps = []
        while it.k == "mcall" and it.m == "map" and len(it.args) == 1 and it.args[0].k == "closure" and len(it.args[0].params) == 1:
            maps.insert(0, it.args[0])
            it = it.e
        while it.k == "paren":
            it = it.e
        return it, maps

    def iterable(self, it):
        x = it
        while x.k == "paren":
            x = x.e
        if x.k == "range":
            return True
        if x.k == "mcall" and x.m in ("rev", "enumerate", "zip", "copied", "cloned", "skip", "take"):
            return self.iterable(x.e)
        return x.k == "mcall" and x.m in ("iter", "into_iter", "iter_mut", "windows")

    def loop(self, it, pat, body):
        it, maps = self.source(it)
        pre = []
        for k, m in enumerate(maps):
            p = m.params[0][0]
            if k == 0:
                head = p
            else:
                pre.append(N("let", pat=p, ty=None, init=prev, els=None, attrs=[]))
            prev = copy.deepcopy(m.body)
        if maps:
            pre.append(N("let", pat=pat, ty=None, init=prev, els=None, attrs=[]))
            pat = head
        return N("for", pat=pat, it=it, b=block(pre + body), label=None)

    def bodyof(self, e):
        if e.k == "block" and not e.label:
            return list(e.stmts), e.tail
        return [], e

    def chains(self, blk):
        def go(e):
            if e.k == "mcall" and e.m == "sum" and not e.args and re.match(r"^<\s*(NativeFloat|f64)\s*>$", e.tf or "") and self.iterable(self.source(e.e)[0]) and self.source(e.e)[1]:
                # the sum of floats starts from -0.0
                c = N("closure", params=[["s", None], ["x", None]], body=px("s + x"), move=False, ret=None)
                e = N("mcall", e=e.e, m="fold", tf=None, args=[px("-0.0"), c])
            if e.k == "mcall" and e.m == "fold" and len(e.args) == 2 and e.args[1].k == "closure" and len(e.args[1].params) == 2 and self.iterable(self.source(e.e)[0]):
                c = copy.deepcopy(e.args[1])
                acc = c.params[0][0].replace("mut ", "")
                if not re.match(r"^\w+$", acc) or any(x.k in ("return", "try") for x in walk(c.body)):
                    return e
                new = f"{acc}__f{self.fresh()}"
                body = rename(c.body, {acc: new})
                if acc in bound(c.body):
                    return e
                ss, t = self.bodyof(body)
                if t is None:
                    return e
                ss.append(st(N("assign", op="=", l=N("path", p=new), r=t)))
                lp = self.loop(e.e, c.params[1][0], ss)
                self.log.append("R18")
                r = block([let(new, e.args[0], True), N("expr", e=lp, semi=False, attrs=[])], N("path", p=new))
                r.splice = True
                return r
            if e.k == "mcall" and e.m == "for_each" and len(e.args) == 1 and e.args[0].k == "closure" and len(e.args[0].params) == 1 and self.iterable(self.source(e.e)[0]):
                c = e.args[0]
                if any(x.k in ("return", "try") for x in walk(c.body)):
                    return e
                ss, t = self.bodyof(c.body)
                if t is not None:
                    ss.append(st(t))
                self.log.append("R18")
                return self.loop(e.e, c.params[0][0], ss)
            return e
        for x in walk(blk):
            if x.k == "let" and x.init is not None and x.init.k == "mcall" and x.init.m == "sum" and not x.init.tf and (x.ty or "") in ("NativeFloat", "f64"):
                x.init.tf = "<NativeFloat>"
        blk = transform(blk, go)
        # the result of the function is an all() over a range or arrays
        t = blk.tail
        neg = False
        if t is not None and t.k == "un" and t.op == "!":
            neg, t = True, t.e
            while t.k == "paren":
                t = t.e
        if not neg and t is not None and t.k == "mcall" and t.m in ("find", "position") and len(t.args) == 1 and t.args[0].k == "closure" and len(t.args[0].params) == 1:
            # the result of the function is the first value of a range with a property
            c = t.args[0]
            it = t.e
            while it.k == "paren":
                it = it.e
            r = it
            if r.k == "mcall" and r.m == "rev":
                r = r.e
                while r.k == "paren":
                    r = r.e
            p = c.params[0][0].replace(" ", "")
            if t.m == "find" and r.k == "range" and re.match(r"^&\w+$", p) and not any(x.k in ("return", "try") for x in walk(c.body)):
                ss, v = self.bodyof(copy.deepcopy(c.body))
                ret = N("return", e=N("call", f=N("path", p="Some"), args=[N("path", p=p[1:])]))
                ss.append(N("expr", e=N("if", c=v, b=block([st(ret)]), els=None), semi=False, attrs=[]))
                blk.stmts.append(N("expr", e=N("for", pat=p[1:], it=it, b=block(ss), label=None), semi=False, attrs=[]))
                blk.tail = N("path", p="None")
                self.log.append("R18")
                t = None
        if t is not None and t.k == "mcall" and t.m in ("all", "any") and len(t.args) == 1 and t.args[0].k == "closure" and len(t.args[0].params) == 1:
            it, maps = self.source(t.e)
            r = it
            if self.iterable(it) and (r.k == "range" or maps or (r.k == "mcall" and (r.m in ("zip", "rev", "enumerate")))):
                c = t.args[0]
                if not any(x.k in ("return", "try") for x in walk(c.body)):
                    ss, v = self.bodyof(c.body)
                    stop = (t.m == "any") != neg          # value returned early
                    cond = v if t.m == "any" else N("un", op="!", e=N("paren", e=v))
                    ss.append(N("expr", e=N("if", c=cond, b=block([st(N("return", e=px("true" if stop else "false")))]), els=None), semi=False, attrs=[]))
                    lp = self.loop(t.e, c.params[0][0], ss)
                    blk.stmts.append(N("expr", e=lp, semi=False, attrs=[]))
                    blk.tail = px("false" if stop else "true")
                    self.log.append("R18")
        return self.splice(self.simplify(blk))

    def simplify(self, blk):
        """if !(a == b)  ->  if a != b"""
        return blk

    def splice(self, blk):
        def go(b):
            if b.k != "block":
                return b
            out = []
            for s in b.stmts:
                e = s.init if s.k == "let" else s.e if s.k == "expr" else None
                if e is not None and e.k == "block" and getattr(e, "splice", False):
                    out += e.stmts
                    if s.k == "let":
                        s.init = e.tail
                        out.append(s)
                    continue
                out.append(s)
            b.stmts = out
            if b.tail is not None and b.tail.k == "block" and getattr(b.tail, "splice", False):
                b.stmts += b.tail.stmts
                b.tail = b.tail.tail
            return b
        return transform(blk, go)

    # ------------------------------------------------------------------------------------------ R18 while -> for
    def counted(self, blk):
        def go(b):
            if b.k != "block":
                return b
            if b.tail is not None and b.tail.k == "while":
                b.stmts.append(N("expr", e=b.tail, semi=False, attrs=[]))
                b.tail = None
            i = 0
            while i < len(b.stmts):
                s = b.stmts[i]
                if s.k == "expr" and s.e.k == "while":
                    r = self.count(b, i) or self.down(b, i)
                    if r:
                        b.stmts = r
                        continue
                i += 1
            return b
        return transform(blk, go)

    def down(self, b, i):
        """let mut r = hi; while r > lo { r -= 1; B }  ->  for r in (lo..hi).rev() { B }
           let mut r = hi; while r >= lo { B; r -= 1; }  ->  for r in (lo..=hi).rev() { B }   (lo a literal > 0, no continue)"""
        w = b.stmts[i].e
        if w.label or w.c.k != "bin" or w.c.op not in (">", ">=") or w.c.l.k != "path" or not re.match(r"^\w+$", w.c.l.p) or not w.b.stmts:
            return None
        if w.b.tail is not None:
            w.b.stmts.append(N("expr", e=w.b.tail, semi=False, attrs=[]))
            w.b.tail = None
        v, lo = w.c.l.p, w.c.r

        def dec(s):
            a = s.e if s.k == "expr" else None
            return a is not None and a.k == "assign" and a.l.k == "path" and a.l.p == v and (a.op == "-=" and unparse(a.r) == "1" or a.op == "=" and unparse(a.r).replace(" ", "") == f"{v}-1")
        if w.c.op == ">" and dec(w.b.stmts[0]):
            inner, op = block(w.b.stmts[1:]), ".."
        elif w.c.op == ">=" and dec(w.b.stmts[-1]) and self.kind(lo) == "int":
            inner, op = block(w.b.stmts[:-1]), "..="
            if any(x.k == "continue" for x in walk(inner)):
                return None
        else:
            return None
        if v in assigned(inner) or v in bound(inner) or (paths(lo) & (assigned(inner) | {v})) or any(x.k in ("call", "macro") for x in walk(lo)):
            return None
        js = [k for k in range(i) if b.stmts[k].k == "let" and b.stmts[k].pat == "mut " + v]
        if not js:
            return None
        j = js[-1]
        hi = b.stmts[j].init
        if hi is None or any(v in paths(b.stmts[k]) for k in range(j + 1, i)) or v in paths(block(b.stmts[i + 1:], b.tail)):
            return None
        if i > j + 1 and paths(hi) & set().union(*[assigned(b.stmts[k]) for k in range(j + 1, i)]):
            return None
        pos = []
        if op == "..=" and not (lo.k == "lit" and int(re.sub(r"\D.*", "", lo.s.replace("_", ""))) > 0):
            pos = [N("raw", s=f"proof {{ assert({unparse(lo)} > 0); }}")]      # the last decrement does not go below zero
        self.log.append("R18")
        rg = N("paren", e=N("range", lo=lo, op=op, hi=hi))
        f = N("for", pat=v, it=N("mcall", e=rg, m="rev", tf=None, args=[]), b=inner, label=None)
        return b.stmts[:j] + b.stmts[j + 1:i] + pos + [N("expr", e=f, semi=False, attrs=[])] + b.stmts[i + 1:]

    def count(self, b, i):
        w = b.stmts[i].e
        if w.label or w.c.k != "bin" or w.c.op not in ("<", "<=", "!=") or w.c.l.k != "path" or not re.match(r"^\w+$", w.c.l.p) or not w.b.stmts or w.b.tail is not None:
            return None
        v = w.c.l.p
        last = w.b.stmts[-1]
        if not (last.k == "expr" and last.e.k == "assign" and last.e.l.k == "path" and last.e.l.p == v):
            return None
        a = last.e
        if not (a.op == "+=" and unparse(a.r) == "1" or a.op == "=" and unparse(a.r).replace(" ", "") == f"{v}+1"):
            return None
        inner = block(w.b.stmts[:-1])
        if v in assigned(inner) or v in bound(inner) or any(x.k == "continue" for x in walk(inner)):
            return None
        hi = w.c.r
        if (paths(hi) & (assigned(inner) | {v})) or any(x.k in ("call", "macro") for x in walk(hi)):
            return None
        js = [k for k in range(i) if b.stmts[k].k == "let" and b.stmts[k].pat == "mut " + v]
        if not js:
            return None
        j = js[-1]
        if b.stmts[j].init is None or any(v in paths(b.stmts[k]) for k in range(j + 1, i)):
            return None
        after = block(b.stmts[i + 1:], b.tail)
        if v in paths(after):
            return None
        if w.c.op == "!=":
            return None
        lo = b.stmts[j].init
        if (paths(lo) & set().union(*[assigned(b.stmts[k]) for k in range(j + 1, i)])) if i > j + 1 else False:
            return None
        self.log.append("R18")
        f = N("for", pat=v, it=N("range", lo=lo, op=".." if w.c.op == "<" else "..=", hi=hi), b=inner, label=None)
        return b.stmts[:j] + b.stmts[j + 1:i] + [N("expr", e=f, semi=False, attrs=[])] + b.stmts[i + 1:]

    # ------------------------------------------------------------------------------------------ R18 arrays
    def place(self, e):
        while e.k == "paren":
            e = e.e
        if e.k in ("path", "field", "index") or (e.k in ("ref", "un") and e.k == "ref"):
            x = e.e if e.k == "ref" else e
            return x if x.k in ("path", "field", "index") else None
        return None

    def arrlike(self, e):
        k = "avec" if e.k == "path" and e.p in self.lists else self.kind(e) or ""
        return k.startswith("arr:") or k == "avec"

    def items(self, it):
        """the arrays an iterator walks in step, as a list of dicts: by ref / mut / val / idx / win, X the array, off the index of its
        first element, n the number of items (None: not limited), w the window length; None: not such an iterator"""
        while it.k == "paren":
            it = it.e
        if it.k == "mcall" and it.m in ("copied", "cloned") and not it.args:
            r = self.items(it.e)
            return [dict(r[0], by="val")] if r and len(r) == 1 and r[0]["by"] == "ref" else None
        if it.k == "mcall" and it.m == "enumerate" and not it.args:
            r = self.items(it.e)
            return [dict(by="idx", X=None, off=None, n=None, pat="i")] + r if r and len(r) == 1 else None
        if it.k == "mcall" and it.m == "zip" and len(it.args) == 1:
            a, b = self.items(it.e), self.items(it.args[0])
            if b is None and a is not None:
                b = self.items(N("mcall", e=it.args[0], m="into_iter", tf=None, args=[]))
            return a + b if a and b else None
        if it.k == "mcall" and it.m in ("skip", "take") and len(it.args) == 1:
            r = self.items(it.e)
            c = it.args[0]
            if r is None or any(x.k not in ("path", "lit", "bin", "paren", "mcall", "field") or (x.k == "mcall" and x.m != "len") for x in walk(c)):
                return None
            c = unparse(c)
            out = []
            for x in r:
                x = dict(x)
                if it.m == "take":
                    x["n"] = c if x["n"] is None else f"(if {x['n']} < {c} {{ {x['n']} }} else {{ {c} }})"
                else:
                    x["off"] = c if x["off"] is None else f"({x['off']} + {c})"
                    x["n"] = None if x["n"] is None else f"(if {x['n']} > {c} {{ {x['n']} - {c} }} else {{ 0 }})"
                out.append(x)
            return out
        if it.k == "range" and it.lo is not None and (it.hi is None or it.op == ".."):
            lo = unparse(it.lo)
            zero = re.match(r"^0(usize)?$", lo)
            hi = None if it.hi is None else unparse(it.hi)
            n = None if hi is None else hi if zero else f"(if {hi} > {lo} {{ {hi} - {lo} }} else {{ 0 }})"
            return [dict(by="idx", X=None, off=None if zero else f"({lo})", n=n)]
        win = None
        if it.k == "mcall" and it.m in ("iter", "iter_mut", "into_iter") and not it.args:
            x, by = it.e, {"iter": "ref", "iter_mut": "mut", "into_iter": "val"}[it.m]
            if by == "val" and it.e.k == "ref":
                by = "mut" if it.e.mut else "ref"
        elif it.k == "mcall" and it.m == "windows" and len(it.args) == 1 and it.args[0].k == "lit" and re.match(r"^[1-9]$", it.args[0].s):
            x, by, win = it.e, "win", int(it.args[0].s)
        elif it.k == "ref":
            x, by = it, "mut" if it.mut else "ref"
        else:
            x, by = it, "val"
        while x.k == "paren" or x.k == "ref":
            x = x.e
        off, n = None, None
        if x.k == "index" and x.i.k == "range" and by != "val":
            r = x.i
            if any(y.k not in ("path", "lit", "bin", "paren", "mcall", "field") or (y.k == "mcall" and y.m != "len") for z in (r.lo, r.hi) if z is not None for y in walk(z)):
                return None
            X = self.place(x.e)
            if X is None:
                return None
            L = unparse(X) + ".len()"
            lo = "0" if r.lo is None else unparse(r.lo)
            hi = L if r.hi is None else unparse(r.hi) if r.op == ".." else f"({unparse(r.hi)} + 1)"
            self.pre.append(f"if {lo} > {hi} || {hi} > {L} {{ vpanic::<()>(); }}")
            off = None if lo == "0" else f"({lo})"
            n = hi if lo == "0" else f"({hi} - ({lo}))"
        else:
            X = self.place(x)
            if X is None and x.k in ("call", "mcall") and self.kind(x) == "avec" and by != "mut":
                nm = f"list__a{self.fresh()}"
                self.pre.append(let(nm, x))
                X = px(nm)
                self.lists.add(nm)
        if X is None or not self.arrlike(X) or (by == "mut" and self.kind(X) == "avec"):
            return None
        n = n or unparse(X) + ".len()"
        if win:
            n = f"(if {n} >= {win} {{ {n} - {win - 1} }} else {{ 0 }})" if win > 1 else n
        return [dict(X=X, by=by, off=off, n=n, w=win)]

    def leaves(self, pat, depth=0):
        """the names of a nested tuple pattern"""
        pat = pat.strip()
        if pat.startswith("(") and pat.endswith(")"):
            out, cur, d = [], "", 0
            for ch in pat[1:-1] + ",":
                if ch == "," and d == 0:
                    if cur.strip():
                        r = self.leaves(cur)
                        if r is None:
                            return None
                        out += r
                    cur = ""
                    continue
                d += (ch in "([") - (ch in ")]")
                cur += ch
            return out
        m = re.match(r"^(&?)\s*(mut )?\s*(\w+)$", pat)
        return [(bool(m.group(1)), bool(m.group(2)), m.group(3))] if m else None

    def arrays(self, blk):
        def go(e):
            if e.k != "for":
                return e
            it, rev = e.it, False
            while it.k == "paren":
                it = it.e
            if it.k == "mcall" and it.m == "rev" and not it.args:
                it, rev = it.e, True
                while it.k == "paren":
                    it = it.e
            if it.k == "range":
                return e
            self.pre = []
            src, pats = self.items(it), self.leaves(e.pat)
            if not src or pats is None or all(x["n"] is None for x in src):
                return e
            if len(pats) == 1 and pats[0][2] == "_" and len(src) > 1:
                pats = pats * len(src)
            if len(pats) != len(src):
                return e
            if rev and (len(src) > 1 and not (len(src) == 2 and src[0].get("pat") == "i")):
                return e
            body = e.b
            ch = assigned(body)
            for x, (amp, mut, v) in zip(src, pats):
                if x["by"] in ("mut", "idx") and amp or x["by"] in ("idx", "win") and mut:
                    return e
                if x["by"] not in ("val", "idx") and v != "_" and any(y.k in ("closure", "macro") for y in walk(body)):
                    return e
                if x["X"] is not None and x["by"] != "mut" and base_var(x["X"]) in ch:
                    return e
                if x["X"] is not None and self.arrlike(x["X"]) and any(y.k == "mcall" and unparse(y.e) == unparse(x["X"]) and y.m not in ("len", "get", "is_empty", "first", "last", "iter") for y in walk(body)):
                    return e
                if x["by"] not in ("val", "idx") and not amp and v in bound(body):
                    return e
                for t in (x["off"],):
                    if t and set(re.findall(r"[a-z_]\w*", t)) & (ch | bound(body)):
                        return e
                if x["by"] == "win" and v != "_":
                    ix = [y for y in walk(body) if y.k == "index" and y.e.k == "path" and y.e.p == v and y.i.k == "lit" and re.match(r"^\d$", y.i.s) and int(y.i.s) < x["w"]]
                    if len(ix) != sum(1 for y in walk(body) if y.k == "path" and y.p == v):
                        return e
            # the loop variable: the index of the source where it counts from 0
            k = next((v for x, (_, _, v) in zip(src, pats) if x["by"] == "idx" and not x["off"] and v != "_"), None) or f"k__a{self.fresh()}"
            lets = []
            for x, (amp, mut, v) in zip(src, pats):
                if v in ("_", k):
                    continue
                at = k if not x["off"] else f"{k} + {x['off']}"
                if x["by"] == "idx":
                    lets.append(let(v, px(at)))
                    continue
                if x["by"] == "win":
                    def sub(y):
                        if y.k == "index" and y.e.k == "path" and y.e.p == v:
                            q = int(y.i.s)
                            return N("index", e=copy.deepcopy(x["X"]), i=px(f"{at} + {q}" if q else at))
                        return y
                    body = transform(body, sub)
                    continue
                el = N("index", e=copy.deepcopy(x["X"]), i=px(at))
                if x["by"] == "val" or amp:
                    lets.append(let(v, el, mut))
                else:
                    body = self.through(body, v, el)
            body.stmts[:0] = lets
            ns = []
            for x in src:
                if x["n"] is not None and x["n"] not in ns:
                    ns.append(x["n"])
            hi = ns[0]
            for h in ns[1:]:
                hi = f"if {h} < {hi} {{ {h} }} else {{ {hi} }}" if " " not in hi else f"if {h} < ({hi}) {{ {h} }} else {{ {hi} }}"
            hi = px(hi)
            while hi.k == "paren":
                hi = hi.e
            rg = N("range", lo=px("0"), op="..", hi=hi)
            e.pat, e.it, e.b = k, N("mcall", e=N("paren", e=rg), m="rev", tf=None, args=[]) if rev else rg, body
            self.log.append("R18")
            for x in src:
                # the list the loop goes through, for the invariants
                if x["X"] is not None and (self.kind(x["X"]) == "avec" or unparse(x["X"]) in self.lists):
                    self.nl += 1
                    self.pre.append(f"let ghost av__{self.nl} = {unparse(x['X'])};")
            if self.pre:
                r = block([N("raw", s=p) if isinstance(p, str) else p for p in self.pre] + [N("expr", e=e, semi=False, attrs=[])])
                r.splice = True
                return r
            return e
        return self.splice(transform(self.copies(blk), go))

    def built(self, blk):
        """core::array::from_fn(|i| e) and a.map(|x| e)  ->  the loop that fills the array from index 0 upwards"""
        def go(e):
            c = src = None
            if e.k == "call" and e.f.k == "path" and re.match(r"^((::)?(core|std)::array::|array::)?from_fn(::<.*>)?$", e.f.p.replace(" ", "")) and len(e.args) == 1:
                c = e.args[0]
            elif e.k == "mcall" and e.m == "map" and len(e.args) == 1 and not e.tf and self.arrlike(e.e) and self.kind(e.e) != "avec" and self.place(e.e) is not None:
                c, src = e.args[0], self.place(e.e)
            if c is None:
                return e
            if c.k == "path" and re.match(r"^[\w:]+$", c.p):
                c = N("closure", params=[["v", None]], body=N("call", f=c, args=[px("v")]), move=False, ret=None)
            if c.k != "closure" or len(c.params) != 1 or not re.match(r"^(mut )?\w+$", c.params[0][0]) or any(x.k in ("return", "try", "macro") for x in walk(c.body)):
                return e
            if src is not None and base_var(src) in assigned(c.body):
                return e
            n = self.fresh()
            a, p = f"arr__b{n}", c.params[0][0]
            ss, t = self.bodyof(copy.deepcopy(c.body))
            if t is None:
                return e
            if src is None:
                k = p if p != "_" and p not in bound(c.body) and not p.startswith("mut ") else f"k__a{n}"
                if p != k and p != "_":
                    ss.insert(0, let(p.replace("mut ", ""), px(k), p.startswith("mut ")))
                hi = px(f"{a}.len()")
            else:
                k = f"k__a{n}"
                if p != "_":
                    ss.insert(0, let(p.replace("mut ", ""), N("index", e=copy.deepcopy(src), i=px(k)), p.startswith("mut ")))
                hi = N("mcall", e=copy.deepcopy(src), m="len", tf=None, args=[])
            el = N("call", f=px("arr_new"), args=[])
            el.elem = t
            ss.append(st(N("assign", op="=", l=px(f"{a}[{k}]"), r=t)))
            lp = N("for", pat=k, it=N("range", lo=px("0"), op="..", hi=hi), b=block(ss), label=None)
            self.log.append("R18")
            r = block([let(a, el, True), N("expr", e=lp, semi=False, attrs=[])], px(a))
            r.inlined = True
            r.splice = True
            return r
        return self.splice(transform(blk, go))

    def equal(self, blk):
        """a == b of two arrays as the value of the function  ->  the loop that compares their elements in order"""
        e = blk.tail
        while e is not None and e.k == "paren":
            e = e.e
        if e is None or e.k != "bin" or e.op not in ("==", "!="):
            return blk
        X, Y = self.place(e.l), self.place(e.r)
        if X is None or Y is None or not (self.arrlike(X) and self.arrlike(Y)) or "avec" in (self.kind(X), self.kind(Y)):
            return blk
        k = f"k__a{self.fresh()}"
        x, y = (N("index", e=copy.deepcopy(z), i=px(k)) for z in (X, Y))
        same = px("true" if e.op == "==" else "false")
        diff = px("false" if e.op == "==" else "true")
        c = N("if", c=N("bin", op="!=", l=x, r=y), b=block([st(N("return", e=diff))]), els=None)
        lp = N("for", pat=k, it=N("range", lo=px("0"), op="..", hi=N("mcall", e=copy.deepcopy(X), m="len", tf=None, args=[])), b=block([N("expr", e=c, semi=False, attrs=[])]), label=None)
        blk.stmts.append(N("expr", e=lp, semi=False, attrs=[]))
        blk.tail = same
        self.log.append("R18")
        return blk

    def copies(self, blk):
        """a.copy_from_slice(&b[lo..hi])  ->  the loop it abbreviates"""
        def go(b):
            if b.k != "block":
                return b
            out = []
            for s in b.stmts + ([st(b.tail)] if b.tail is not None and b.tail.k == "mcall" and b.tail.m in ("copy_from_slice", "clone_from_slice") else []):
                e = s.e if s.k == "expr" else None
                if e is not None and e.k == "mcall" and e.m in ("copy_from_slice", "clone_from_slice") and len(e.args) == 1:
                    src = e.args[0]
                    if src.k != "ref":
                        src = N("ref", e=src, mut=False)
                    self.pre = []
                    d = self.items(N("mcall", e=e.e, m="iter_mut", tf=None, args=[]))
                    r = self.items(src)
                    if d and r:
                        d, r = d[0], r[0]
                        k = f"k__a{self.fresh()}"
                        out += [N("raw", s=p) if isinstance(p, str) else p for p in self.pre]
                        out.append(N("raw", s=f"if {d['n']} != {r['n']} {{ vpanic::<()>(); }}"))
                        l = N("index", e=copy.deepcopy(d["X"]), i=px(f"{k} + {d['off']}" if d["off"] else k))
                        v = N("index", e=copy.deepcopy(r["X"]), i=px(f"{k} + {r['off']}" if r["off"] else k))
                        out.append(N("expr", e=N("for", pat=k, it=N("range", lo=px("0"), op="..", hi=px(d["n"])), b=block([st(N("assign", op="=", l=l, r=v))]), label=None), semi=False, attrs=[]))
                        self.log.append("R18")
                        if b.tail is not None and s.e is b.tail:
                            b.tail = None
                        continue
                if b.tail is not None and s.k == "expr" and s.e is b.tail:
                    continue
                out.append(s)
            b.stmts = out
            return b
        return transform(blk, go)

    def through(self, body, v, el):
        """uses of the reference v: *v -> el, v.m() -> el.m(), comparisons of references, everything else &el"""
        def isv(x):
            while x.k == "paren":
                x = x.e
            return x.k == "path" and x.p == v

        def f(x):
            if x.k == "un" and x.op == "*" and isv(x.e):
                return copy.deepcopy(el)
            if x.k == "mcall" and isv(x.e):
                x.e = copy.deepcopy(el)
            if x.k == "field" and isv(x.e):
                x.e = copy.deepcopy(el)
            if x.k == "bin" and x.op in ("==", "!=", "<", "<=", ">", ">="):
                for a, b in (("l", "r"), ("r", "l")):
                    y, z = getattr(x, a), getattr(x, b)
                    if isv(y):
                        setattr(x, a, copy.deepcopy(el))
                        if z.k == "ref":
                            setattr(x, b, z.e)
            return x
        body = transform(body, f)

        def g(x):
            return N("ref", e=copy.deepcopy(el), mut=False) if isv(x) and x.k == "path" else x
        return transform(body, g)


def rename(b, mp):
    def sub(p):
        return re.sub(r"(?<![\w:])[a-z_]\w*", lambda m: mp.get(m.group(), m.group()), p)

    def f(e):
        if e.k == "path" and e.p in mp:
            e.p = mp[e.p]
        if e.k in ("let", "for"):
            e.pat = sub(e.pat)
        if e.k == "struct":
            e.fs = [(n, v if v is not None else (N("path", p=mp[n]) if n in mp else None)) for n, v in e.fs]
        return e
    return transform(b, f)


# ---------------------------------------------------------------------------------------------- R19
def early_returns(b):
    """rewrites  if c { ..; return e; } rest  into  if c { ..; e } else { rest };  False if some return is elsewhere"""
    for i, s in enumerate(b.stmts):
        e = s.e if s.k == "expr" else None
        if e is not None and e.k == "if" and e.els is None and ends_in_return(e.b):
            th = e.b
            if th.tail is not None and th.tail.k == "return":
                th.tail = th.tail.e
            else:
                th.tail = th.stmts.pop().e.e
            rest = block(b.stmts[i + 1:], b.tail)
            early_returns(th)
            early_returns(rest)
            b.stmts = b.stmts[:i]
            b.tail = N("if", c=e.c, b=th, els=rest)
            return b
        if e is not None and e.k == "return" and i == len(b.stmts) - 1 and b.tail is None:
            b.stmts.pop()
            b.tail = e.e
            return b
    if b.tail is not None and b.tail.k == "return":
        b.tail = b.tail.e
    if b.tail is not None and b.tail.k == "if":
        t = b.tail
        while t is not None and t.k == "if":
            early_returns(t.b)
            if t.els is not None and t.els.k == "block":
                early_returns(t.els)
            t = t.els
    if b.tail is not None and b.tail.k == "block":
        early_returns(b.tail)
    return b


def leaving(e):
    """loop { if c { break; } rest }  ->  while !(c) { rest }"""
    if e.k != "loop" or getattr(e, "label", None) or not e.b.stmts or e.b.stmts[0].k != "expr":
        return e
    x = e.b.stmts[0].e
    if x.k != "if" or x.els is not None or x.c.k == "letcond":
        return e
    y = x.b.tail if x.b.tail is not None and not x.b.stmts else x.b.stmts[0].e if len(x.b.stmts) == 1 and x.b.tail is None and x.b.stmts[0].k == "expr" else None
    if y is None or y.k != "break" or getattr(y, "e", None) is not None or getattr(y, "label", None):
        return e
    w = N("while", c=N("un", op="!", e=N("paren", e=x.c)), b=N("block", stmts=e.b.stmts[1:], tail=e.b.tail, label=None))
    for f in vars(e):
        if f not in ("k", "b"):
            setattr(w, f, getattr(e, f))
    return w


def ends_in_return(b):
    if b.tail is not None:
        return b.tail.k == "return" and b.tail.e is not None
    return bool(b.stmts) and b.stmts[-1].k == "expr" and b.stmts[-1].e.k == "return" and b.stmts[-1].e.e is not None


def predicate(b):
    """for i in RANGE { if c { return false; } } true  ->  RANGE.all(|i| !c)   (and with true / false exchanged: any)"""
    if len(b.stmts) < 1 or b.tail is None:
        return b
    t = unparse(b.tail)
    f = b.stmts[-1]
    f = f.e if f.k == "expr" else None
    if t not in ("true", "false") or f is None or f.k != "for" or f.label:
        return b
    r = f.it
    while r.k == "paren":
        r = r.e
    if r.k != "range" or not re.match(r"^\w+$", f.pat):
        return b
    ss, x = list(f.b.stmts), f.b.tail
    if x is None and ss and ss[-1].k == "expr":
        x = ss.pop().e
    if x is None or x.k != "if" or x.els is not None or x.c.k == "letcond" or not ends_in_return(x.b) or any(y.k == "return" for s in ss for y in walk(s)):
        return b
    ret = x.b.tail if x.b.tail is not None else (x.b.stmts[-1].e if len(x.b.stmts) == 1 else None)
    if ret is None or ret.k != "return" or ret.e is None or unparse(ret.e) != ("false" if t == "true" else "true") or (x.b.tail is not None and x.b.stmts):
        return b
    c = x.c if t == "false" else N("un", op="!", e=N("paren", e=x.c))
    body = block(ss, c) if ss else c
    cl = N("closure", params=[[f.pat, None]], body=body, move=False, ret=None)
    b.stmts.pop()
    b.tail = N("mcall", e=N("paren", e=r), m="all" if t == "true" else "any", tf=None, args=[cl])
    return b
