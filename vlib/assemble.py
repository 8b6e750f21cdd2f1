"""Assembles the verification file of a property from /repo's current source and the contracts."""
import copy
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import ring as RG
import vgen
from vgen import Gen, Source, Unsupported
from rustparse import join_tokens, lex


USES = "use vstd::prelude::*;\nuse vstd::std_specs::ops::*;\nuse vstd::std_specs::cmp::*;\nuse vstd::std_specs::convert::*;\nuse core::ops::{Add, Div, Mul, Neg, Sub};\n"


def prelude(fp):
    return open(os.path.join(HERE, "prelude_fp.rs" if fp else "prelude.rs")).read()


def private():
    """private functions under contract (recorded on the tree the contracts were written for)"""
    try:
        return json.load(open(os.path.join(HERE, "shapes.json"))).get("__private__", [])
    except OSError:
        return []


class Assembly:
    def __init__(self, src, ct, defs, lemmas, vacuity=None):
        self.src, self.ct, self.defs, self.lem = src, ct, defs, lemmas
        self.g = Gen(src, ct)
        self.g.defs = defs
        self.g.vacuity = vacuity

    def struct(self, name):
        rel, toks, it = self.src.structs[name]
        g = self.g
        a, b = it["head"]
        k = a
        while toks[k].s not in ("struct", "enum"):
            k += 1
        head = join_tokens(toks[k:b])
        body_a, body_b = it["body"]
        txt = join_tokens(toks[body_a:body_b + 1])
        return head, txt

    def libs(self, names):
        o = ""
        for i, x in enumerate(names):
            o += (f"pub mod {x} {{\nuse super::pre::*;\nuse super::defs::*;\n" + "".join(f"use super::{y}::*;\n" for y in names[:i]) + USES
                  + "verus! {\n" + open(os.path.join(HERE, x + ".rs")).read() + "\n}\n}\n")
        return o

    def emit(self, fns, lemma_names=(), extra="", structs=(), trait_decls="", libs=(), stubs=(), fp=False):
        out = ["#![allow(unused)]\n#![verifier::allow(autoderive_clone_without_spec)]\npub mod pre {\n" + prelude(fp).rstrip() + "\n} // mod pre"]
        out.append("pub mod defs { use vstd::prelude::*; verus! {\n" + self.defs.text() + "} }\n")
        libs = ([] if fp else ["geo"]) + [x for x in libs if x != "geo"]
        out.append("//@lib\n" + self.libs(libs))
        self.uses = "use super::pre::*;\nuse super::ring::*;\nuse super::defs::*;\n" + "".join(f"use super::{x}::*;\n" for x in libs) + USES
        out.append("pub mod m {\n" + self.uses + "verus! {\nbroadcast use {scalar_laws, point_laws" + ("" if fp else ", geo_laws") + "};\n")
        out.append(trait_decls)
        for s in structs:
            out.append(self.struct_text(s))
        body = []
        lem = []
        seen = []
        groups = []
        self.units = {}
        fns = list(fns)
        self.added = []
        self.dropped = []
        for key in fns:        # grows: functions with a contract that only the changed code calls join the unit
            c = self.ct[key]
            if key in private() and not self.src.fns.get(c.get("src", key)):
                self.dropped.append(key)
                continue
            try:
                txt = f"//@fn {key}{' (stub)' if key in stubs else ''}\n" + self.g.function(key, key in stubs)
            except Unsupported as e:
                e.key = key
                raise
            for k in self.g.called:
                if k not in fns and self.joins(k, structs):
                    fns.append(k)
                    self.added.append(k)
            rel, toks, it, h = self.src.get(c.get("src", key))
            hd = self.impl_head(h, c) if h else None
            if groups and groups[-1][0] == hd:
                groups[-1][1].append(txt)
            else:
                groups.append((hd, [txt]))
            for l in c.get("lemmas", []):
                if l not in seen:
                    seen.append(l)
        for l in lemma_names:
            if l not in seen:
                seen.append(l)
        # lemmas may need other lemmas
        i = 0
        ltxt = []
        while i < len(seen):
            L = self.lem[seen[i]]
            if isinstance(L, tuple):
                for d in L[1]:
                    if d not in seen:
                        seen.append(d)
                L = L[0]
            ltxt.append(f"//@lemma {seen[i]}\n" + (L(self.g.ring) if callable(L) else L))
            i += 1
        for hd, ts in groups:
            if hd is None:
                body.append("".join(ts))
            else:
                body.append(hd + " {\n" + "\n".join(ts) + "}\n")
        out.append("//@spec\n" + extra)
        out += ltxt
        out += body
        out.append("\n} // verus!\n} // mod m\n//@ring\n" + self.g.ring.modules() + "fn main() {}\n")
        return "\n".join(out)

    def joins(self, k, structs):
        return k.split("::")[0] in structs and len(self.src.fns.get(self.ct[k].get("src", k), [])) == 1

    def impl_head(self, h, c):
        if c.get("impl_head"):
            return c["impl_head"]
        t = re.sub(r"\{\s*(\w+)\s*\}", r"\1", h["type"])
        if c.get("inherent"):
            h = dict(h, trait=None)
        s = f"impl{h['generics']} " + (f"{h['trait']} for " if h["trait"] else "") + t
        if h["where"]:
            s += " where " + h["where"].rstrip(", ")
        return re.sub(r"\{\s*(\w+)\s*\}", r"\1", s)

    def struct_text(self, name):
        head, txt = self.struct(name)
        txt = re.sub(r"pub\s*\(\s*crate\s*\)", "", txt)
        txt = re.sub(r"///.*", "", txt)
        txt = re.sub(r"#\s*\[[^\]]*\]", "", txt)
        rel, toks, it = self.src.structs[name]
        kw = "enum" if head.startswith("enum") else "struct"
        if kw == "struct":
            f = self.g.fields(name)
            txt = "{ " + ", ".join(f"pub {n}: {t}" for n, t in f.items()) + " }"
        drv = "#[derive(Copy, Clone)]\n"
        return f"{drv}pub {head} {txt}\n"
