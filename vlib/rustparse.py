"""A small Rust front end: lexer, item scanner, and a parser for function bodies.

It accepts the part of Rust that /repo's library code uses (and a good deal
around it).  Whatever it cannot parse raises ParseError; the callers then report
the function as outside the verifier's reach.  `unparse` prints an AST back; on
every run the token sequence of unparse(parse(text)) is compared with the token
sequence of the source text, so that neither parser nor printer can change code
silently (see check_roundtrip).
"""
import re


class ParseError(Exception):
    pass


# ---------------------------------------------------------------- lexer
TOK = re.compile(r"""
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<rstr>r\#*")
 |(?P<str>b?"(?:[^"\\]|\\.)*")
 |(?P<char>b?'(?:[^'\\]|\\(?:[nrt\\0'"]|x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}))')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<float>\d[\d_]*\.\d[\d_]*(?:[eE][+-]?[\d_]+)?(?:_?f32|_?f64)?
           |\d[\d_]*[eE][+-]?[\d_]+(?:_?f32|_?f64)?
           |\d[\d_]*_?(?:f32|f64)
           |\d[\d_]*\.(?![.\w]))
 |(?P<int>0[xob][\da-fA-F_]+(?:[ui](?:8|16|32|64|128|size))?|\d[\d_]*(?:[ui](?:8|16|32|64|128|size))?)
 |(?P<id>(?:r\#)?[A-Za-z_]\w*)
 |(?P<op><<=|>>=|\.\.\.|\.\.=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|>>|\.\.|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]])
""", re.X | re.S)


class Tok:
    __slots__ = ("k", "s", "pos", "end")

    def __init__(self, k, s, pos, end):
        self.k, self.s, self.pos, self.end = k, s, pos, end

    def __repr__(self):
        return f"{self.s!r}"


def lex(text):
    toks, i, n = [], 0, len(text)
    while i < n:
        m = TOK.match(text, i)
        if not m:
            raise ParseError(f"cannot tokenise at offset {i}: {text[i:i+20]!r}")
        k = m.lastgroup
        if k == "bc":
            depth, j = 1, m.end()
            while depth:
                a, b = text.find("/*", j), text.find("*/", j)
                if b < 0:
                    raise ParseError("unterminated comment")
                if 0 <= a < b:
                    depth += 1
                    j = a + 2
                else:
                    depth -= 1
                    j = b + 2
            i = j
            continue
        if k == "rstr":
            h = m.group().count("#")
            j = text.find('"' + "#" * h, m.end())
            if j < 0:
                raise ParseError("unterminated raw string")
            j += 1 + h
            toks.append(Tok("str", text[i:j], i, j))
            i = j
            continue
        if k not in ("ws", "lc"):
            toks.append(Tok(k, m.group(), i, m.end()))
        i = m.end()
    return toks


# ---------------------------------------------------------------- AST
class N:
    """Generic AST node."""

    def __init__(self, k, **f):
        self.k = k
        self.__dict__.update(f)

    def __repr__(self):
        return f"{self.k}({', '.join(f'{a}={b!r}' for a, b in self.__dict__.items() if a != 'k')})"


BINPREC = [["||"], ["&&"], ["==", "!=", "<", ">", "<=", ">="], ["|"], ["^"], ["&"], ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]
PREC = {o: i for i, l in enumerate(BINPREC) for o in l}
ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<=", ">>="}


class Parser:
    def __init__(self, toks):
        # split '>>' and '&&','||' on demand only
        self.t = list(toks)
        self.i = 0

    # -- basics
    def peek(self, k=0):
        j = self.i + k
        return self.t[j].s if j < len(self.t) else ""

    def kind(self, k=0):
        j = self.i + k
        return self.t[j].k if j < len(self.t) else ""

    def next(self):
        if self.i >= len(self.t):
            raise ParseError("unexpected end")
        x = self.t[self.i]
        self.i += 1
        return x

    def at(self, *s):
        return self.i < len(self.t) and self.t[self.i].s in s and self.t[self.i].k in ("op", "id")

    def eat(self, s):
        if self.at(s):
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.at(s):
            p = self.t[self.i].pos if self.i < len(self.t) else -1
            raise ParseError(f"expected {s!r}, found {self.peek()!r} at offset {p}")
        return self.next()

    def split(self, s):
        """split a compound token that starts with s"""
        if self.i >= len(self.t):
            return
        x = self.t[self.i]
        if x.k == "op" and x.s != s and x.s.startswith(s) and x.s not in ("<=", ">=", "&="):
            a = Tok("op", s, x.pos, x.pos + len(s))
            b = Tok("op", x.s[len(s):], x.pos + len(s), x.end)
            self.t[self.i:self.i + 1] = [a, b]

    # -- types and paths (kept as token text)
    def type_(self):
        s = self.i
        self._type()
        return self.text(s, self.i)

    def text(self, a, b):
        return join_tokens(self.t[a:b])

    def _generic_args(self):
        self.split("<")
        self.expect("<")
        depth = 1
        while depth:
            self.split(">")
            x = self.peek()
            if x == "":
                raise ParseError("unterminated generics")
            if x == "<" or x == "<<":
                self.split("<")
                depth += 1
                self.next()
            elif x == ">":
                depth -= 1
                self.next()
            elif x in "([{" and self.kind() == "op":
                self._group()
            elif x in ";":
                raise ParseError("not generics")
            else:
                self.next()

    def _group(self):
        o = self.next().s
        c = {"(": ")", "[": "]", "{": "}"}[o]
        while not self.at(c):
            if self.peek() == "":
                raise ParseError("unbalanced group")
            if self.peek() in "([{" and self.kind() == "op":
                self._group()
            else:
                self.next()
        self.next()

    def _type(self):
        self.split("&")
        while self.at("&", "*", "mut", "const", "dyn", "impl") or self.kind() == "life":
            self.next()
            self.split("&")
        if self.at("("):
            self._group()
            return
        if self.at("["):
            self._group()
            return
        if self.at("!"):
            self.next()
            return
        if self.at("<"):
            self._generic_args()
            self.expect("::")
        self.eat("::")
        while True:
            if self.kind() != "id":
                raise ParseError(f"type expected, found {self.peek()!r}")
            name = self.next().s
            if name in ("Fn", "FnMut", "FnOnce") and self.at("("):
                self._group()
                if self.eat("->"):
                    self._type()
            self.split("<")
            if self.at("<"):
                self._generic_args()
            elif self.at("::") and self.peek(1) in ("<", "<<"):
                self.next()
                self._generic_args()
            if self.at("::"):
                self.next()
                continue
            break
        while self.at("+") and False:
            pass

    # -- patterns
    def pattern(self):
        s = self.i
        self._pat_alt()
        return self.text(s, self.i)

    def _pat_alt(self):
        self.eat("|")
        self._pat()
        while self.at("|"):
            self.next()
            self._pat()

    def _pat(self):
        self.split("&")
        while self.at("&"):
            self.next()
            self.split("&")
        while self.at("mut", "ref", "box"):
            self.next()
        if self.at("(", "["):
            self._group()
            return
        if self.at("-"):
            self.next()
        if self.at("..", "..=") :
            self.next()
            return
        if self.kind() in ("int", "float", "str", "char"):
            self.next()
        elif self.kind() == "id":
            self.next()
            while self.at("::"):
                self.next()
                self.split("<")
                if self.at("<"):
                    self._generic_args()
                else:
                    self.next()
            if self.at("("):
                self._group()
            elif self.at("{"):
                self._group()
            elif self.at("@"):
                self.next()
                self._pat()
        else:
            raise ParseError(f"pattern expected, found {self.peek()!r}")
        if self.at("..=", ".."):
            self.next()
            if self.kind() in ("int", "float", "char") or self.at("-"):
                self.eat("-")
                self.next()

    # -- blocks and statements
    def block(self):
        self.expect("{")
        stmts, tail = [], None
        while not self.at("}"):
            if self.eat(";"):
                stmts.append(N("empty"))
                continue
            attrs = []
            while self.at("#"):
                s = self.i
                self.next()
                self.eat("!")
                self._group()
                attrs.append(self.text(s, self.i))
            if self.at("let"):
                self.next()
                pat = self.pattern()
                ty = init = els = None
                if self.eat(":"):
                    ty = self.type_()
                if self.eat("="):
                    init = self.expr()
                    if self.at("else"):
                        self.next()
                        els = self.block()
                self.expect(";")
                stmts.append(N("let", pat=pat, ty=ty, init=init, els=els, attrs=attrs))
                continue
            if self.at("fn", "use", "struct", "enum", "impl", "static", "type", "mod", "trait") or (self.at("const") and self.kind(1) == "id"):
                if self.at("const"):
                    self.next()
                    name = self.next().s
                    self.expect(":")
                    ty = self.type_()
                    self.expect("=")
                    e = self.expr()
                    self.expect(";")
                    stmts.append(N("const", name=name, ty=ty, init=e))
                    continue
                if self.at("use", "fn"):
                    a = self.i
                    while not self.at(";", "{") or (self.at("{") and self.t[a].s == "use"):
                        if self.at("{", "(", "["):
                            self._group()
                        else:
                            self.next()
                    if self.at("{"):
                        self._group()
                    else:
                        self.next()
                    stmts.append(N("item", kind=self.t[a].s, toks=self.t[a:self.i]))
                    continue
                raise ParseError(f"nested item {self.peek()!r}")
            e = self.expr(stmt=True)
            if self.eat(";"):
                stmts.append(N("expr", e=e, semi=True, attrs=attrs))
            elif self.at("}"):
                tail = e
            elif e.k in ("if", "match", "for", "while", "loop", "block", "unsafe", "macro") and blocklike(e):
                stmts.append(N("expr", e=e, semi=False, attrs=attrs))
            else:
                p = self.t[self.i].pos if self.i < len(self.t) else -1
                raise ParseError(f"expected ';', found {self.peek()!r} at offset {p}")
        self.expect("}")
        return N("block", stmts=stmts, tail=tail, label=None)

    # -- expressions
    def expr(self, stmt=False, nostruct=False):
        save = getattr(self, "ns", False)
        self.ns = nostruct
        try:
            return self._assign(stmt)
        finally:
            self.ns = save

    def _assign(self, stmt):
        if self.at("return"):
            self.next()
            e = None if self.at(";", "}", ",", ")") else self._assign(False)
            return N("return", e=e)
        if self.at("break"):
            self.next()
            lab = self.next().s if self.kind() == "life" else None
            e = None if self.at(";", "}", ",", ")") else self._assign(False)
            return N("break", label=lab, e=e)
        if self.at("continue"):
            self.next()
            lab = self.next().s if self.kind() == "life" else None
            return N("continue", label=lab)
        if self.at("|", "||", "move"):
            return self._closure()
        l = self._range(stmt)
        if blocklike(l) and stmt and not self.at("."):
            if getattr(self, "_stmt_done", False):
                return l
        if self.kind() == "op" and self.peek() in ASSIGN:
            op = self.next().s
            r = self._assign(False)
            return N("assign", op=op, l=l, r=r)
        return l

    def _closure(self):
        mv = self.eat("move")
        params = []
        if not self.eat("||"):
            self.expect("|")
            while not self.at("|"):
                self.split("|")
                s = self.i
                self._pat()
                pat = self.text(s, self.i)
                ty = None
                if self.eat(":"):
                    ty = self.type_()
                params.append((pat, ty))
                if not self.eat(","):
                    break
            self.expect("|")
        ret = None
        if self.eat("->"):
            ret = self.type_()
            body = self.block()
        else:
            body = self._assign(False)
        return N("closure", move=mv, params=params, ret=ret, body=body)

    def _range(self, stmt):
        if self.at("..", "..="):
            op = self.next().s
            hi = None if self.at(")", "]", "}", ",", ";") or (self.at("{") and self.ns) else self._bin(0, False)
            return N("range", lo=None, op=op, hi=hi)
        l = self._bin(0, stmt)
        if getattr(self, "_stmt_done", False) and stmt and blocklike(l):
            return l
        if self.at("..", "..="):
            op = self.next().s
            hi = None if self.at(")", "]", "}", ",", ";") or (self.at("{") and self.ns) else self._bin(0, False)
            return N("range", lo=l, op=op, hi=hi)
        return l

    def _bin(self, p, stmt):
        if p == len(BINPREC):
            return self._cast(stmt)
        l = self._bin(p + 1, stmt)
        if stmt and blocklike(l) and getattr(self, "_stmt_done", False):
            return l
        while self.kind() == "op" and self.peek() in BINPREC[p]:
            op = self.next().s
            r = self._bin(p + 1, False)
            l = N("bin", op=op, l=l, r=r)
        return l

    def _cast(self, stmt):
        e = self._unary(stmt)
        if stmt and blocklike(e) and getattr(self, "_stmt_done", False):
            return e
        while self.at("as"):
            self.next()
            e = N("cast", e=e, ty=self.type_())
        return e

    def _unary(self, stmt):
        if self.at("-", "!", "*"):
            op = self.next().s
            return N("un", op=op, e=self._unary(False))
        if self.at("&", "&&"):
            self.split("&")
            self.next()
            m = self.eat("mut")
            return N("ref", mut=m, e=self._unary(False))
        self._stmt_done = False
        e = self._primary()
        if stmt and blocklike(e):
            if not self.at(".", "?"):
                self._stmt_done = True
                return e
        r = self._postfix(e)
        self._stmt_done = False
        return r

    def _args(self, close):
        a = []
        while not self.at(close):
            a.append(self.expr())
            if not self.eat(","):
                break
        self.expect(close)
        return a

    def _postfix(self, e):
        while True:
            if self.at("?"):
                self.next()
                e = N("try", e=e)
            elif self.at("("):
                self.next()
                e = N("call", f=e, args=self._args(")"))
            elif self.at("["):
                self.next()
                i = self.expr()
                self.expect("]")
                e = N("index", e=e, i=i)
            elif self.at("."):
                self.next()
                if self.kind() == "int":
                    e = N("field", e=e, f=self.next().s)
                elif self.kind() == "float":   # x.0.1
                    a, b = self.next().s.split(".")
                    e = N("field", e=N("field", e=e, f=a), f=b)
                else:
                    if self.kind() != "id":
                        raise ParseError(f"field expected, found {self.peek()!r}")
                    name = self.next().s
                    tf = None
                    if self.at("::"):
                        self.next()
                        s = self.i
                        self._generic_args()
                        tf = self.text(s, self.i)
                    if self.at("("):
                        self.next()
                        e = N("mcall", e=e, m=name, tf=tf, args=self._args(")"))
                    else:
                        e = N("field", e=e, f=name)
            else:
                return e

    def _path(self):
        s = self.i
        if self.at("<"):
            self._generic_args()
            self.expect("::")
        self.eat("::")
        while True:
            if self.kind() != "id":
                raise ParseError(f"path expected, found {self.peek()!r}")
            self.next()
            if self.at("::"):
                self.next()
                self.split("<")
                if self.at("<"):
                    self._generic_args()
                    if self.at("::"):
                        self.next()
                        continue
                    break
                continue
            break
        return self.text(s, self.i)

    def _primary(self):
        k, s = self.kind(), self.peek()
        if k in ("int", "float", "str", "char"):
            self.next()
            return N("lit", t=k, s=s)
        lab = None
        if k == "life" and self.peek(1) == ":":
            lab = self.next().s
            self.next()
            s = self.peek()
        if s == "(" :
            self.next()
            if self.eat(")"):
                return N("tuple", es=[])
            e = self.expr()
            if self.eat(")"):
                return N("paren", e=e)
            es = [e]
            while self.eat(","):
                if self.at(")"):
                    break
                es.append(self.expr())
            self.expect(")")
            return N("tuple", es=es)
        if s == "[":
            self.next()
            if self.eat("]"):
                return N("array", es=[])
            e = self.expr()
            if self.eat(";"):
                n = self.expr()
                self.expect("]")
                return N("repeat", e=e, n=n)
            es = [e]
            while self.eat(","):
                if self.at("]"):
                    break
                es.append(self.expr())
            self.expect("]")
            return N("array", es=es)
        if s == "{":
            b = self.block()
            b.label = lab
            return b
        if s == "unsafe":
            raise ParseError("unsafe block")
        if s == "if":
            return self._if()
        if s == "match":
            self.next()
            e = self.expr(nostruct=True)
            self.expect("{")
            arms = []
            while not self.at("}"):
                pat = self.pattern()
                guard = self.expr() if self.eat("if") else None
                self.expect("=>")
                body = self.expr(stmt=True)
                comma = self.eat(",")
                if not comma and not self.at("}") and not blocklike(body):
                    raise ParseError("match arm separator")
                arms.append((pat, guard, body))
            self.expect("}")
            return N("match", e=e, arms=arms)
        if s == "while":
            self.next()
            c = self._cond()
            b = self.block()
            return N("while", c=c, b=b, label=lab)
        if s == "loop":
            self.next()
            return N("loop", b=self.block(), label=lab)
        if s == "for":
            self.next()
            pat = self.pattern()
            self.expect("in")
            it = self.expr(nostruct=True)
            b = self.block()
            return N("for", pat=pat, it=it, b=b, label=lab)
        if k == "id" or s in ("<", "::"):
            p = self._path()
            if self.at("!") and self.peek(1) in ("(", "[", "{"):
                self.next()
                s0 = self.i
                self._group()
                return N("macro", p=p, body=self.t[s0 + 1:self.i - 1], d=self.t[s0].s)
            if self.at("{") and not self.ns and self._looks_struct(p):
                self.next()
                fs, base = [], None
                while not self.at("}"):
                    if self.eat(".."):
                        base = self.expr()
                        break
                    f = self.next().s
                    if self.eat(":"):
                        fs.append((f, self.expr()))
                    else:
                        fs.append((f, None))
                    if not self.eat(","):
                        break
                self.expect("}")
                return N("struct", p=p, fs=fs, base=base)
            return N("path", p=p)
        raise ParseError(f"expression expected, found {s!r} at offset {self.t[self.i].pos if self.i < len(self.t) else -1}")

    def _looks_struct(self, p):
        last = re.split(r"::", p)[-1].strip()
        if not re.match(r"[A-Z<]", last):
            return False
        a, b = self.kind(1), self.peek(2)
        if self.peek(1) == "}":
            return True
        if self.peek(1) == "..":
            return True
        return a in ("id", "int") and b in (":", ",", "}")

    def _cond(self):
        if self.at("let"):
            raise ParseError("let condition")
        save = getattr(self, "ns", False)
        self.ns = True
        try:
            return self._assign(False)
        finally:
            self.ns = save

    def _if(self):
        self.expect("if")
        if self.at("let"):
            self.next()
            pat = self.pattern()
            self.expect("=")
            e = self.expr(nostruct=True)
            c = N("letcond", pat=pat, e=e)
        else:
            c = self._cond()
        b = self.block()
        els = None
        if self.eat("else"):
            els = self._if() if self.at("if") else self.block()
        return N("if", c=c, b=b, els=els)


def blocklike(e):
    return e.k in ("if", "match", "for", "while", "loop", "block") or (e.k == "macro" and e.d == "{")


def join_tokens(ts):
    """readable text of a token list (types, patterns, paths)"""
    out = ""
    prev = None
    for x in ts:
        if prev is not None:
            glue = not (prev.k in ("id", "int", "float", "life") and x.k in ("id", "int", "float", "life"))
            if x.s in ("->", "=>", "=", "+", "where", "as") or prev.s in (",", ";", ":", "->", "=>", "=", "+", "as"):
                glue = False
            if not glue:
                out += " "
        out += x.s
        prev = x
    return out


# ---------------------------------------------------------------- printer
def P(e):
    return unparse(e)


def ublock(b, ind):
    pad = "    " * (ind + 1)
    out = "{\n"
    for s in b.stmts:
        out += pad + ustmt(s, ind + 1) + "\n"
    if b.tail is not None:
        out += pad + unparse(b.tail, ind + 1) + "\n"
    return out + "    " * ind + "}"


def ustmt(s, ind=0):
    a = "".join(x + " " for x in getattr(s, "attrs", None) or [])
    if s.k == "let":
        r = f"{a}let {s.pat}"
        if s.ty is not None:
            r += f": {s.ty}"
        if s.init is not None:
            r += f" = {unparse(s.init, ind)}"
        if s.els is not None:
            r += f" else {ublock(s.els, ind)}"
        return r + ";"
    if s.k == "item":
        return join_tokens(s.toks)
    if s.k == "const":
        return f"const {s.name}: {s.ty} = {unparse(s.init, ind)};"
    if s.k == "expr":
        return a + unparse(s.e, ind) + (";" if s.semi else "")
    if s.k == "empty":
        return ";"
    if s.k == "raw":
        return s.s
    raise ParseError("cannot print " + s.k)


def unparse(e, ind=0):
    k = e.k
    U = lambda x: unparse(x, ind)
    if k == "lit":
        return e.s
    if k == "path":
        return e.p
    if k == "paren":
        return f"({U(e.e)})"
    if k == "tuple":
        return "(" + ", ".join(map(U, e.es)) + ("," if len(e.es) == 1 else "") + ")"
    if k == "array":
        return "[" + ", ".join(map(U, e.es)) + "]"
    if k == "repeat":
        return f"[{U(e.e)}; {U(e.n)}]"
    if k == "bin":
        l, r = U(e.l), U(e.r)
        if e.l.k in ("bin", "cast") and e.l.k == "bin" and PREC[e.l.op] < PREC[e.op]:
            l = f"({l})"
        if e.r.k == "bin" and PREC[e.r.op] <= PREC[e.op]:
            r = f"({r})"
        if e.l.k == "cast" and e.op in ("<", "<<"):
            l = f"({l})"
        if e.l.k in ("closure", "range", "assign", "if", "match", "block"):
            l = f"({l})"
        if e.r.k in ("closure", "range", "assign"):
            r = f"({r})"
        return f"{l} {e.op} {r}"
    if k == "un":
        x = U(e.e)
        if e.e.k in ("bin", "cast", "range", "assign", "closure"):
            x = f"({x})"
        return e.op + x
    if k == "ref":
        x = U(e.e)
        if e.e.k in ("bin", "cast", "range", "assign", "closure"):
            x = f"({x})"
        return "&" + ("mut " if e.mut else "") + x
    if k == "cast":
        x = U(e.e)
        if e.e.k in ("bin", "closure", "range"):
            x = f"({x})"
        return f"{x} as {e.ty}"
    if k in ("try", "call", "index", "field", "mcall"):
        b = e.f if k == "call" else e.e
        x = U(b)
        if b.k in ("bin", "un", "ref", "cast", "range", "closure", "assign") or (k == "call" and b.k == "field"):
            x = f"({x})"
        if k == "try":
            return x + "?"
        if k == "call":
            return x + "(" + ", ".join(map(U, e.args)) + ")"
        if k == "index":
            return f"{x}[{U(e.i)}]"
        if k == "field":
            return f"{x}.{e.f}"
        return f"{x}.{e.m}{'::' + e.tf if e.tf else ''}(" + ", ".join(map(U, e.args)) + ")"
    if k == "assign":
        return f"{U(e.l)} {e.op} {U(e.r)}"
    if k == "range":
        f = lambda x: "" if x is None else (f"({U(x)})" if x.k in ("range", "closure") else U(x))
        return f"{f(e.lo)}{e.op}{f(e.hi)}"
    if k == "closure":
        ps = ", ".join(p + (f": {t}" if t else "") for p, t in e.params)
        spec = getattr(e, "spec", "")
        return ("move " if e.move else "") + f"|{ps}|" + (f" -> {e.ret} {spec}" if e.ret else " ") + U(e.body)
    if k == "return":
        return "return" + ("" if e.e is None else " " + U(e.e))
    if k == "break":
        return "break" + (f" {e.label}" if e.label else "") + ("" if e.e is None else " " + U(e.e))
    if k == "continue":
        return "continue" + (f" {e.label}" if e.label else "")
    if k == "struct":
        fs = [f if v is None else f"{f}: {U(v)}" for f, v in e.fs]
        if e.base is not None:
            fs.append(".." + U(e.base))
        return f"{e.p} {{ " + ", ".join(fs) + " }"
    if k == "block":
        return (f"{e.label}: " if e.label else "") + ublock(e, ind)
    if k == "letcond":
        return f"let {e.pat} = {U(e.e)}"
    if k == "if":
        r = f"if {U(e.c)} {ublock(e.b, ind)}"
        if e.els is not None:
            r += " else " + U(e.els)
        return r
    if k == "match":
        pad = "    " * (ind + 1)
        r = f"match {U(e.e)} {{\n"
        for p, g, b in e.arms:
            r += f"{pad}{p}" + (f" if {U(g)}" if g is not None else "") + f" => {unparse(b, ind + 1)},\n"
        return r + "    " * ind + "}"
    lab = f"{e.label}: " if getattr(e, "label", None) else ""
    inv = getattr(e, "inv", "")
    if inv:
        inv = "\n" + inv + "\n" + "    " * ind
    if k == "while":
        return f"{lab}while {U(e.c)} {inv}{ublock(e.b, ind)}"
    if k == "loop":
        return f"{lab}loop {inv}{ublock(e.b, ind)}"
    if k == "for":
        it = getattr(e, "itname", "")
        return f"{lab}for {e.pat} in {it}{U(e.it)} {inv}{ublock(e.b, ind)}"
    if k == "macro":
        c = {"(": ")", "[": "]", "{": "}"}[e.d]
        return f"{e.p}!{e.d}{' '.join(t.s for t in e.body)}{c}"
    if k == "raw":
        return e.s
    raise ParseError("cannot print " + k)


# ---------------------------------------------------------------- items
class Fn:
    """a function item: signature pieces as text, body tokens"""
    pass


def match_group(toks, i):
    o = toks[i].s
    c = {"(": ")", "[": "]", "{": "}"}[o]
    d = 0
    j = i
    while j < len(toks):
        s = toks[j].s
        if toks[j].k == "op":
            if s in "([{":
                d += 1
            elif s in ")]}":
                d -= 1
                if d == 0:
                    return j
        j += 1
    raise ParseError("unbalanced delimiters")


def scan_items(text):
    """Top-level items of a file -> list of dict(kind, header tokens, body token range, attrs).
    Items under #[cfg(test)] are skipped."""
    toks = lex(text)
    items = _scan(toks, 0, len(toks))
    return toks, items


def _scan(toks, i, end):
    items = []
    while i < end:
        attrs = []
        while i < end and toks[i].s == "#":
            j = i + 1
            if toks[j].s == "!":
                j += 1
            e = match_group(toks, j)
            attrs.append("".join(t.s for t in toks[i:e + 1]))
            i = e + 1
        if i >= end:
            break
        start = i
        # header up to ';' or '{' group (ignoring groups in between, and const-generic braces inside <...>)
        j = i
        angle = 0
        kind = None
        while j < end:
            t = toks[j]
            if t.k == "id" and kind is None and t.s in ("fn", "impl", "struct", "enum", "trait", "mod", "use", "type", "const", "static", "extern", "macro_rules"):
                if t.s == "extern" and toks[j + 1].s != "crate":
                    j += 1
                    continue
                if t.s == "const" and toks[j + 1].s in ("fn", "unsafe"):
                    j += 1
                    continue
                kind = t.s
            if t.k == "op":
                if t.s == "<":
                    angle += 1
                elif t.s == "<<":
                    angle += 2
                elif t.s == ">":
                    angle = max(0, angle - 1)
                elif t.s == ">>":
                    angle = max(0, angle - 2)
                elif t.s in "([":
                    j = match_group(toks, j)
                elif t.s == "{":
                    e = match_group(toks, j)
                    if angle > 0 or (kind in ("fn", "impl") and _const_brace(toks, j, e, end)):
                        j = e
                    elif kind in ("use",):
                        j = e
                    else:
                        break
                elif t.s == ";":
                    break
                elif t.s == "=" and kind in ("const", "static", "type"):
                    # skip initialiser up to ';'
                    while toks[j].s != ";":
                        if toks[j].s in ("(", "[", "{"):
                            j = match_group(toks, j)
                        j += 1
                    break
            j += 1
        if j >= end:
            raise ParseError("unterminated item")
        it = dict(kind=kind, attrs=attrs, head=(start, j), body=None)
        if toks[j].s == "{":
            e = match_group(toks, j)
            it["body"] = (j, e)
            i = e + 1
        else:
            i = j + 1
        if any("cfg(test)" in a for a in attrs) or any(a == "#[test]" for a in attrs):
            continue
        if kind == "mod" and it["body"]:
            it["items"] = _scan(toks, it["body"][0] + 1, it["body"][1])
        if kind in ("impl", "trait") and it["body"]:
            it["items"] = _scan(toks, it["body"][0] + 1, it["body"][1])
        items.append(it)
    return items


def _const_brace(toks, j, e, end):
    """`{ N }` used as a const generic argument outside of tracked angles (never the last brace of a header)"""
    return False


def fn_name(toks, it):
    a, b = it["head"]
    for k in range(a, b):
        if toks[k].k == "id" and toks[k].s == "fn":
            return toks[k + 1].s
    return None


def norm(toks):
    return [t.s for t in toks]


def split_sig(toks, it):
    """-> dict(vis, name, generics, params [(pattern, type)], ret, where) as text; params[0] may be ('self-form', None)"""
    a, b = it["head"]
    p = Parser(toks[a:b])
    vis = []
    while not p.at("fn"):
        vis.append(p.next().s)
        if p.at("("):
            s = p.i
            p._group()
            vis.append(p.text(s, p.i))
    p.next()
    name = p.next().s
    gen = ""
    p.split("<")
    if p.at("<"):
        s = p.i
        p._generic_args()
        gen = p.text(s, p.i)
    p.expect("(")
    params = []
    while not p.at(")"):
        s = p.i
        # self forms
        q = p.i
        while p.t[q].s in ("&", "mut") or p.t[q].k == "life":
            q += 1
        if p.t[q].s == "self":
            p.i = q + 1
            if p.eat(":"):
                p.type_()
            params.append((p.text(s, p.i), None))
        else:
            pat = p.pattern()
            p.expect(":")
            params.append((pat, p.type_()))
        if not p.eat(","):
            break
    p.expect(")")
    ret = None
    if p.eat("->"):
        ret = p.type_()
    where = ""
    if p.at("where"):
        p.next()
        where = p.text(p.i, len(p.t))
    return dict(vis=vis, name=name, generics=gen, params=params, ret=ret, where=where)


def parse_body(toks, it):
    a, b = it["body"]
    p = Parser(toks[a:b + 1])
    blk = p.block()
    if p.i != len(p.t):
        raise ParseError("trailing tokens after body")
    check_roundtrip(toks[a:b + 1], blk)
    return blk


def canon_tokens(ts):
    """token strings without parentheses and trailing commas (the printer may add or drop redundant ones)"""
    out = []
    for t in ts:
        s = t.s if isinstance(t, Tok) else t
        for u in ((s[0], s[1]) if s in ("&&", "||", ">>", "<<") else (s,)):
            out.append(u)
    r = []
    for i, s in enumerate(out):
        if s == "," and i + 1 < len(out) and out[i + 1] in (")", "]", "}"):
            continue
        if s == "," and r and r[-1] == "}":
            continue
        r.append(s)
    return r


def check_roundtrip(toks, blk):
    a = canon_tokens(toks)
    b = canon_tokens(lex(ublock(blk, 0)))
    if a != b:
        # an operand that is an if or a match is printed in parentheses
        if any(x.k in ("bin", "cast", "mcall", "field") and getattr(x, "l", getattr(x, "e", None)).k in ("if", "match") for x in walk(blk)):
            drop = lambda z: [t for t in z if t not in ("(", ")")]
            if drop(a) == drop(b):
                return
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                raise ParseError(f"printer does not reproduce the source near {a[max(0,i-5):i+5]} / {b[max(0,i-5):i+5]}")
        raise ParseError("printer does not reproduce the source (length)")


# generic traversal ------------------------------------------------
FIELDS = {
    "paren": ["e"], "tuple": ["es"], "array": ["es"], "repeat": ["e", "n"], "bin": ["l", "r"], "un": ["e"], "ref": ["e"],
    "cast": ["e"], "try": ["e"], "call": ["f", "args"], "index": ["e", "i"], "field": ["e"], "mcall": ["e", "args"],
    "assign": ["l", "r"], "range": ["lo", "hi"], "closure": ["body"], "return": ["e"], "break": ["e"], "continue": [],
    "block": ["stmts", "tail"], "letcond": ["e"], "if": ["c", "b", "els"], "while": ["c", "b"], "loop": ["b"],
    "for": ["it", "b"], "macro": [], "lit": [], "path": [], "let": ["init", "els"], "expr": ["e"], "const": ["init"], "item": [], "empty": [], "raw": [],
}


def children(e):
    if e.k == "match":
        yield e.e
        for p, g, b in e.arms:
            if g is not None:
                yield g
            yield b
        return
    if e.k == "struct":
        for f, v in e.fs:
            if v is not None:
                yield v
        if e.base is not None:
            yield e.base
        return
    for f in FIELDS[e.k]:
        v = getattr(e, f)
        if v is None:
            continue
        if isinstance(v, list):
            yield from v
        else:
            yield v


def transform(e, f):
    """bottom-up rewriting: f(node) -> node"""
    if e is None:
        return None
    if e.k == "match":
        e.e = transform(e.e, f)
        e.arms = [(p, transform(g, f), transform(b, f)) for p, g, b in e.arms]
    elif e.k == "struct":
        e.fs = [(n, transform(v, f)) for n, v in e.fs]
        e.base = transform(e.base, f)
    else:
        for fl in FIELDS[e.k]:
            v = getattr(e, fl)
            if isinstance(v, list):
                setattr(e, fl, [transform(x, f) for x in v])
            elif v is not None:
                setattr(e, fl, transform(v, f))
    return f(e)


def walk(e):
    if e is None:
        return
    yield e
    for c in children(e):
        yield from walk(c)
