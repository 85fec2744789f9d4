"""The Python crate on top of the summaries of the Rust crate."""
import re
import tempfile

import facts as FX
import interp
import lib as LB
import models
import more  # noqa: F401
import terms as T
from terms import app, mk, band, agg, UNIT, OPT, RES, F

_PATH = re.compile(r"rspolib::((?:[a-z_]\w*::)*)([A-Z]\w*)")

# calls kept whole: the property is that they are made with the right arguments
WHOLE = {"pofile", "mofile", "as_bytes", "as_bytes_le", "as_bytes_be", "as_bytes_with", "save", "save_as_pofile", "save_as_mofile", "to_string_with_wrapwidth", "metadata_as_entry", "cmp_by", "merge"}


class PyLib(LB.Lib):
    def __init__(self, path, rust):
        self.rust = rust
        text = open(path).read()
        names = {p.split("::")[-1]: p for p, a in rust.facts.adts.items() if a["local"]}

        def ren(m):
            return names.get(m.group(2), m.group(0))

        text = _PATH.sub(ren, text)
        with tempfile.NamedTemporaryFile("w", suffix=".json") as f:
            f.write(text)
            f.flush()
            super().__init__(f.name)
        self.left_out = None  # (argument, default) seen in the argument parsers
        self.added = None  # (name, class) put in the module
        self.full = False  # whether calls kept whole are followed into

    def roles(self):
        self.esc = self.unesc = self.wrap = None
        self.opaque = {}

    # -------------------------------------------------------------- calls into the Rust crate

    def target(self, k, selfs):
        """function of the Rust crate a callee names"""
        R = self.rust.facts
        d = (k.get("res") or {}).get("def") or k["def"]
        if d in R.fns and d not in self.facts.fns:
            return d
        m = re.match(r"<(.*) as (.*)>::(\w+)$", d)
        if m and not m.group(1).startswith("py"):
            s, tr, n = FX.strip_lt(m.group(1)), FX.strip_lt(m.group(2)), m.group(3)
            return self.impl(s, n, tr)
        if k.get("trait") and "rspolib" in k["trait"] or d.startswith("rspolib::") and d.split("::")[-2][:1].isupper():
            n = d.split("::")[-1]
            return self.impl(selfs, n, None) or next((i for i, f in R.fns.items() if f["name"] == n and f.get("of_trait") and f.get("body")), None)
        if d.startswith("rspolib::"):
            return self.rust.free(d.split("::")[-1])
        return None

    def impl(self, s, n, tr):
        R = self.rust.facts
        c = []
        for i, f in R.fns.items():
            if f["name"] != n or not f.get("body") or f.get("impl_self") is None or not f.get("impl_trait"):
                continue
            if FX.strip_lt(R.ts(f["impl_self"])) != s:
                continue
            c.append(i)
        if len(c) > 1 and tr and "<" in tr:
            w = tr[tr.index("<") + 1:-1]
            c = [i for i in c if [FX.strip_lt(R.ts(x)) for x in R.fns[i].get("impl_trait_args") or []][-1:] == [w]]
        elif len(c) > 1 and tr:
            c = [i for i in c if R.fns[i]["impl_trait"].split("::")[-1] == tr.split("::")[-1]]
        return c[0] if len(c) == 1 else None

    def extern(self, I, st, k, key, args, tyenv):
        selfs = FX.strip_lt(self.facts.ts(k["self"])) if k.get("self") is not None else None
        d = k["def"]
        if key == "PyErr.new":
            return self.exception(k["args"][0], I.dd(st, args[-1]))
        if d.endswith("::new_err") and len(args) == 1:
            r = self.newerr(d)
            if r:
                return app("pyerr", T.lit(r), I.dd(st, args[0]))
        if d.startswith("pyo3::impl_::extract_argument::"):
            n = d.split("::")[-1]
            if self.left_out is not None and n in ("extract_argument_with_default", "extract_optional_argument"):
                name = self.literal(I.dd(st, args[2]))
                v = I.dd(st, I.call(st, I.dd(st, args[3]), [], tyenv))
                self.left_out.append((name, v))
            return None
        if key == "SomeWrap.wrap":
            v = I.dd(st, args[0])
            return v if (v.k == "agg" and v.a[0] == T.OPT) else T.some(v)
        if key == "PyModule.add" and self.added is not None:
            n, v = self.literal(I.dd(st, args[1])), I.dd(st, args[2])
            if v.k == "app" and v.a[0] == "pytype":
                self.added.append((n, self.literal(v.a[1][0])))
            return T.ok(UNIT)
        if key in ("Python.get_type", "Python.get_type_bound"):
            return app("pytype", T.lit(FX.strip_lt(self.facts.ts(k["args"][0]))))
        if key in ("PyModule.add_class", "PyModule.add_function") and self.added is not None:
            return T.ok(UNIT)
        if key == "Py.new":
            return T.ok(I.dd(st, args[-1]))
        if key in ("PyRef.py", "PyRefMut.py"):
            return T.sym("gil")
        if k.get("trait") == "std::clone::Clone":
            return None
        fn = self.target(k, selfs)
        if fn is None:
            return None
        return self.apply(I, st, fn, args, selfs, k)

    def exception(self, ty, arg):
        return app("pyerr", T.lit(FX.strip_lt(self.facts.ts(ty))), arg)

    def newerr(self, d):
        """exception class whose new_err is called"""
        d = FX.strip_lt(d)
        m = re.match(r"(?:.*<impl )?([\w:]+?)>?::new_err$", d)
        return m and m.group(1)

    def literal(self, v):
        its = T.items(v) if v.k == "seq" else ()
        return "".join(it[1] for it in its) if all(it[0] == "L" for it in its) else None

    def options(self, f, k, v):
        """what a value given to be opened stands for"""
        if k is None or not k.get("args"):
            return v
        s = FX.strip_lt(self.facts.ts(k["args"][0]))
        p = self.rust.adt("FileOptions")
        if s == p:
            return v
        c = self.impl(p, "from", "std::convert::From<%s>" % s)
        return self.rust.summary(c, args=[v]).ret if c else v

    def written(self, st, n, ty, vals):
        """saving: which file in which format is put where"""
        kind = {"save": ty, "save_as_pofile": "POFile", "save_as_mofile": "MOFile"}[n]
        v = vals[0]
        if kind != ty:
            c = self.impl(self.rust.adt(kind), "from", "std::convert::From<&%s>" % self.rust.adt(ty))
            v = self.rust.summary(c, args=[v]).ret if c else mk("app", "rust:%s.as.%s" % (ty, kind), (v,))
        cell = ("n", "disk")
        st.mem[cell] = mk("app", "rust:%s.save" % kind, (v, vals[1], st.mem.get(cell, UNIT)))
        return UNIT

    def apply(self, I, st, fn, args, selfs=None, k=None):
        """call of a Rust function"""
        R = self.rust
        f = R.facts.fns[fn]
        n = f["name"]
        vals = [I.dd(st, a) for a in args]
        mut = [i for i in range(f["body"]["argc"]) if R.facts.types[f["body"]["locals"][i + 1]]["k"] == "ref" and R.facts.types[f["body"]["locals"][i + 1]].get("mut")]
        if fn in R.opaque:
            return R.opaque[fn](I, st, args)
        env = {"Self": selfs} if f.get("of_trait") else None
        if n in ("pofile", "mofile"):
            vals = [self.options(f, k, vals[0])]
        if n.startswith("save") and n in WHOLE:
            return self.written(st, n, LB.last(selfs or R.facts.ts(f["impl_self"])), vals)
        if n in WHOLE and (not self.full or n in ("pofile", "mofile")):
            owner = LB.last(selfs or (R.facts.ts(f["impl_self"]) if f.get("impl_self") is not None else "")) if (selfs or f.get("impl_self") is not None) else ""
            name = "rust:%s.%s" % (owner, n)
            r = mk("app", name, tuple(vals))
            ret = R.facts.types[f["body"]["locals"][0]]
            if ret["k"] == "adt" and ret.get("adt") in T.ENUM_VARIANTS:
                T.ENUM_OF.setdefault(r, ret["adt"])
            for i in mut:
                I.write_ref(st, args[i], mk("app", name + "#%d" % i, tuple(vals)))
            return r
        s = R.summary(fn, args=vals, tyenv=env)
        for e in s.events:
            I.events.append(interp.Event(e.kind, e.site, band(st.absolute(), e.pc), e.data, e.fn))
        for i in mut:
            I.write_ref(st, args[i], s.mem("arg%d" % i))
        return s.ret
