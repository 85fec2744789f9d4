"""Resolved program (types, ADTs, MIR) of one crate, as dumped by the driver."""
import json
import re

import terms as T

_LT = re.compile(r"'[a-z_]\w*\s?")


def strip_lt(s):
    s = s.replace("for<'a> ", "").replace("for<'a, 'b> ", "")
    s = _LT.sub("", s)
    s = s.replace("<>", "").replace("<, ", "<")
    return s


def split_generics(s):
    """drop every <...> group from a path, keeping '<impl X>' heads"""
    out = []
    d = 0
    for i, c in enumerate(s):
        if c == "<":
            d += 1
        elif c == ">" and s[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
    return "".join(out).replace("::::", "::")


_IMPL = re.compile(r"<impl ([^>]*?)>::(\w+)$")


class Facts(object):
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d["crate"]
        self.types = d["types"]
        self.adts = d["adts"]
        self.fns = {}
        for f in d["fns"]:
            self.fns[f["id"]] = f
        self.impls = {}
        for f in d["fns"]:
            if f.get("impl_trait"):
                ta = tuple(
                    strip_lt(self.types[x]["s"]) for x in (f.get("impl_trait_args") or [])
                )
                self.impls.setdefault((f["impl_trait"], f["name"]), []).append(
                    (strip_lt(self.types[f["impl_self"]]["s"]), ta, f)
                )
        for p, a in self.adts.items():
            if a["kind"] == "enum":
                T.ENUM_VARIANTS[p] = [len(v["fields"]) for v in a["variants"]]
                for i, v in enumerate(a["variants"]):
                    T.VNAME[(p, i)] = v["name"]
            else:
                fl = a["variants"][0]["fields"] if a["variants"] else []
                if a["local"] or p == "std::ops::Range":
                    T.STRUCT_ARITY[p] = len(fl)
                for i, f in enumerate(fl):
                    T.FNAME[(p, i)] = f["name"]
        T.ENUM_VARIANTS.setdefault(T.OPT, [0, 1])
        T.ENUM_VARIANTS.setdefault(T.RES, [1, 1])
        T.ENUM_VARIANTS.setdefault(T.ORDT, [0, 0, 0])
        T.ENUM_VARIANTS["std::ops::ControlFlow"] = [1, 1]

    def ts(self, i):
        return self.types[i]["s"]

    def deref(self, i):
        """type below references and boxes"""
        while True:
            t = self.types[i]
            if t["k"] in ("ref", "ptr"):
                i = t["to"]
            elif t["k"] == "adt" and t["adt"] == "std::boxed::Box":
                i = t["args"][0]
            else:
                return i

    def adt_of(self, i):
        t = self.types[i]
        return t.get("adt")

    def fields(self, adt):
        return [f["name"] for f in self.adts[adt]["variants"][0]["fields"]]

    def field_ix(self, adt, name):
        return self.fields(adt).index(name)

    def find_impl(self, trait, method, self_s, targs=None):
        for s, ta, f in self.impls.get((trait, method), ()):
            if s == self_s and (targs is None or ta == targs):
                return f
        return None


def callee_key(k):
    """short model key of a callee constant"""
    if k.get("trait"):
        return k["trait"].split("::")[-1] + "." + k["method"]
    d = k["def"]
    m = _IMPL.search(d)
    if m:
        h = m.group(1)
        if h.startswith("["):
            h = "slice"
        h = h.split("::")[-1]
        return h + "." + m.group(2)
    p = split_generics(d).split("::")
    return ".".join(p[-2:])
