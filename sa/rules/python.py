"""C23, C24: the Python classes give what the Rust crate gives.

Every method of the four classes and every module function is summarised for
all arguments.  Calls into the Rust crate are replaced by the summaries of
their targets, or kept whole when both sides make the same call.  The result
and the changed object are compared with the field or operation of the same
name in the Rust crate.
"""
import random
import ev
import pylink
from rules.common import *  # noqa

RULE = {
    "C24": "every failing result of a module function, constructor or lookup is the exception the property names, holding the text of the Rust error; no operation of the Python crate that can fail is reachable",
}

ORD = T.ORDT


class Classes(object):
    def __init__(self, c):
        self.c = c
        self.R = c.lib
        if not isinstance(c.py, pylink.PyLib):
            c.py = pylink.PyLib(c.py, c.lib)
        self.L = c.py
        self.R.more = True
        c.more_fns = self.L.fns_seen
        self.of = {}
        for p, a in self.L.facts.adts.items():
            if not a["local"] or a["kind"] != "struct" or len(a["variants"][0]["fields"]) != 1:
                continue
            t = self.L.facts.types[a["variants"][0]["fields"][0]["ty"]]
            if t["k"] == "adt" and last(t["adt"]) in ("POFile", "MOFile", "POEntry", "MOEntry"):
                self.of[p] = last(t["adt"])
        self.named = {v: k for k, v in self.of.items()}
        self.n = 0

    def wrap(self, ty, v):
        return agg(self.named[ty], 0, [v])

    def methods(self):
        for i, f in sorted(self.L.facts.fns.items()):
            if not f.get("body") or f.get("expanded") or f.get("kind") == "Closure" or f.get("impl_trait") or f.get("impl_self") is None:
                continue
            s = norm(self.L.facts.ts(f["impl_self"]))
            if s in self.of and "__pymethod" not in i:
                yield i, f, self.of[s]

    def params(self, f):
        ns = f["body"]["names"]
        return [ns.get(str(j + 1), "") for j in range(f["body"]["argc"])]

    def rty(self, s):
        """type index in the Rust crate"""
        i = self.R.ty_named(s)
        return i

    def value(self, s, name, inputs):
        """a symbolic value of type s"""
        fs = self.L.facts
        while s.startswith("&"):
            s = s[1:].lstrip()
            if s.startswith("mut "):
                s = s[4:]
        m = s
        if m.startswith("pyo3::PyRef<") or m.startswith("pyo3::PyRefMut<"):
            m = m[m.index("<") + 1:-1].split(", ")[-1]
        if m in self.of:
            x = sym(name)
            inputs[x] = self.R.ty_of(self.of[m])
            return self.wrap(self.of[m], x)
        for p, ty in self.of.items():
            if m == "std::vec::Vec<%s>" % p:
                x = sym(name)
                inputs[x] = lambda g, ty=ty: [g.ty(self.R.ty_of(ty)) for _ in range(g.r.choice((0, 1, 2, 3)))]
                return over(x, lambda e: one(self.wrap(ty, e)))
        x = sym(name)
        t = self.rty(m)
        if t is None:
            t = {"bool": lambda g: g.r.choice((0, 1)), "usize": lambda g: g.r.choice((0, 1, 2, 3, 78)), "u32": lambda g: g.r.choice((0, 1, MAGIC, MAGIC_SWAPPED)), "&str": lambda g: g.text(), "str": lambda g: g.text(),
                 "std::option::Option<&str>": lambda g: ev.NONE if g.r.random() < 0.5 else ev.some(g.text()),
                 "std::collections::HashMap<std::string::String, std::string::String>": lambda g: {g.text(): g.text() for _ in range(g.r.choice((0, 1, 2)))}}.get(m)
        if t is None:
            raise Skip("values of type " + m)
        inputs[x] = t
        r = T.hint(x, "&str" if m == "str" else m)
        return r if r is not None else x

    def call(self, i, f):
        """(summary, arguments by name, inputs)"""
        inputs = {}
        args = {}
        self.n += 1
        for j, n in enumerate(self.params(f)):
            s = norm(self.L.facts.ts(f["body"]["locals"][j + 1]))
            if s.startswith("pyo3::Python"):
                args[n or "#%d" % j] = sym("gil")
                continue
            args[n or "#%d" % j] = self.value(s, "py%d.%s" % (self.n, n), inputs)
        s = self.L.summary(i, args=list(args.values()), key=self.L.full)
        return s, args, inputs

    def result(self, f, v):
        """the value a caller gets: Ok and Err only when the method can fail"""
        s = norm(self.L.facts.ts(f["body"]["locals"][0]))
        return s.startswith("std::result::Result<")

    def rust(self, fn, vals, selfs=None):
        """(result, changed first argument) of a Rust function"""
        f = self.R.facts.fns[fn]
        from interp import Interp, State
        import models

        I = Interp(self.L.facts, models.M, {})
        I.extern = self.L.extern
        st = State(TR, {("n", "arg0"): vals[0] if vals else UNIT, ("n", "disk"): UNIT}, TR)
        a = list(vals)
        t = self.R.facts.types[f["body"]["locals"][1]] if f["body"]["argc"] else {"k": ""}
        if t["k"] == "ref" and t.get("mut"):
            a[0] = I.ref(("n", "arg0"))
        r = self.L.apply(I, st, fn, a, selfs)
        return r, st.mem[("n", "arg0")], st.mem.get(("n", "disk"), UNIT)

    def method(self, ty, name):
        """method of a Rust type, inherent or of a trait: (function, Self)"""
        p = self.R.adt(ty)
        i = self.R.method(ty, name)
        if i:
            return i, p
        i = self.L.impl(p, name, None)
        if i:
            return i, p
        for i, f in self.R.facts.fns.items():
            if f["name"] == name and f.get("of_trait") and f.get("body"):
                return i, p
        return None, p


def funs_for(K, *ts):
    """stand-ins for calls kept whole: any function of the arguments"""
    names = {}
    for t in ts:
        for x in T.subterms(t):
            if x.k == "app" and isinstance(x.a[0], str) and (x.a[0].startswith("rust:") or x.a[0] in ("display", "unescape", "escape", "pyerr", "debug")):
                names[x.a[0]] = 1

    def fun(name):
        def f(*a):
            r = random.Random(name.split("#")[0] + ("#" if "#" in name else "") + repr(a))
            import decide

            g = decide.Gen(K.R.facts, r.random())
            n = name.split(".")[-1]
            if name in ("display", "debug"):
                return "<%s %s>" % (name, a[0])
            if name == "pyerr":
                return ("exception",) + a
            if name == "escape":
                return ev.FUN["escape"](*a) if "escape" in ev.FUN else "e" + str(a[0])
            if name == "unescape":
                return ev.unescape(ev.text(a[0]))
            if n == "cmp_by":
                return ev.En(r.randrange(3), ())
            if n in ("pofile", "mofile"):
                if r.random() < 0.5:
                    return ev.err(g.text())
                return ev.ok(g.ty(K.R.ty_of("POFile" if n == "pofile" else "MOFile")))
            if n.startswith("as_bytes"):
                return [r.randrange(256) for _ in range(5)]
            if n == "metadata_as_entry":
                return g.ty(K.R.ty_of(name[5:7] + "Entry"))
            if n == "merge#0":
                return g.ty(K.R.ty_of(name[5:].split(".")[0]))
            if n == "merge":
                return ()
            if n.startswith("save"):
                return "%s(%s)" % (name, a)
            return "%s(%s)" % (name, a)

        return f

    return {n: fun(n) for n in names}


def obligation(K, name, i, f, spec):
    """spec(args) -> (result or None, changed self or None, disk or None)"""
    c = K.c
    last_ = None
    for full in (False, True):
        K.L.full = full
        try:
            s, args, inputs = K.call(i, f)
            if s.I.unknown:
                last_ = ("undecided", "calls %s" % sorted(s.I.unknown))
                continue
            want = spec(args)
        except Skip as x:
            last_ = ("undecided", "skipped: %s" % x)
            continue
        except Exception as x:
            import traceback, sys as _s
            tb = traceback.extract_tb(_s.exc_info()[2])[-1]
            last_ = ("undecided", "%s: %s (%s:%d)" % (type(x).__name__, str(x)[:200], tb.filename.split("/")[-1], tb.lineno))
            continue
        finally:
            K.L.full = False
        if want is None:
            c.record(name, i, "undecided", "no counterpart", lib=K.L)
            return
        r, me, disk = want[:3]
        raw = len(want) > 3
        code, sp = [], []
        if r is not None:
            code.append(s.ret)
            sp.append(ok(r) if K.result(f, s.ret) and not raw else r)
        if me is not None:
            code.append(s.st.mem.get(("n", "arg0"), list(args.values())[0]))
            sp.append(me)
        if disk is not None:
            code.append(s.st.mem.get(("n", "disk"), UNIT))
            sp.append(disk)
        a, b = tup(*code) if len(code) > 1 else code[0], tup(*sp) if len(sp) > 1 else sp[0]
        import decide

        if a is b or decide.equal(a, b, 4000):
            c.record(name, i, "proved", "same calls" if not full else "same results", lib=K.L)
            return
        last_ = ("differs", a, b, inputs)
    if last_[0] == "undecided":
        c.record(name, i, "undecided", last_[1], lib=K.L)
        return
    _, a, b, inputs = last_
    c.same(name, i, a, b, inputs, lib=K.L, facts=K.R.facts, funs=lambda val, g: funs_for(K, a, b))


OPERATORS = {"__eq__": (1,), "__ne__": (0, 2), "__gt__": (2,), "__ge__": (1, 2), "__lt__": (0,), "__le__": (0, 1)}


def fieldspec(K, ty, me, n):
    """value of the Rust field a Python attribute names, and how to change it"""
    R = K.R
    names = R.facts.fields(R.adt(ty))
    if n in names:
        return R.f(me, ty, n), lambda v: R.build(ty, me, **{n: v})
    if ty.endswith("File"):
        o = R.f(me, ty, "options")
        m = "byte_content" if n == "bytes_content" else n
        if m in R.facts.fields(R.adt("FileOptions")):
            return R.f(o, "FileOptions", m), lambda v: R.build(ty, me, options=R.build("FileOptions", o, **{m: v}))
    return None, None


def unwrapped(K, v):
    """the Rust value inside a Python object"""
    if v.k == "agg" and v.a[0] in K.of:
        return v.a[2][0]
    return v


def entry_of(ty):
    return ty[:2] + "Entry"


def method_spec(K, i, f, ty):
    n = f["name"]
    R = K.R
    ret = norm(K.L.facts.ts(f["body"]["locals"][0]))

    def inner(args):
        return unwrapped(K, args["self"] if "self" in args else list(args.values())[0])

    def rest(args):
        return [(k, v) for k, v in args.items() if k != "self" and not (v.k == "sym" and v.a[0] == "gil")]

    if n == "new":
        def spec(args):
            if ty.endswith("File"):
                return opened(K, ty, rest(args)), None, None, True
            fs = dict(rest(args))
            if ty == "POEntry":
                base = K.rust(K.R.method("POEntry", "new"), [num(0)])[0]
            else:
                base = R.build("MOEntry", **{x: d for x, d in (("msgid", EMPTY), ("msgstr", NONE), ("msgid_plural", NONE), ("msgstr_plural", EMPTY), ("msgctxt", NONE))})
            bad = [x for x in fs if x not in R.facts.fields(R.adt(ty))]
            if bad:
                raise Skip("argument %s" % bad[0])
            return K.wrap(ty, R.build(ty, base, **fs)), None, None
        return "constructor arguments", spec
    if n.startswith("set_"):
        def spec(args):
            me = inner(args)
            cur, put = fieldspec(K, ty, me, n[4:])
            if put is None:
                raise Skip("no field " + n[4:])
            (k, v), = rest(args)
            if n[4:] == "entries":
                v = over(K_raw(v), lambda e: one(e)) if v.k == "seq" else v
            return UNIT, K.wrap(ty, put(v)), None
        return "setter " + n[4:], spec

    def stored(me, m):
        cur, _ = fieldspec(K, ty, me, m)
        if cur is None:
            return None
        if m == "entries":
            return over(cur, lambda e: one(K.wrap(entry_of(ty), e)))
        t = ret[len("std::result::Result<"):].rsplit(", ", 1)[0] if ret.startswith("std::result::Result<") else ret
        if not t.startswith("std::option::Option<"):
            if m == "header":
                return or_empty(cur)
            if m == "magic_number":
                return opt(cur, num(MAGIC), lambda x: x)
            if m == "version":
                return opt(cur, num(0), lambda x: x)
        return cur

    m = n[4:] if n.startswith("get_") else n
    rf, sf = K.method(ty, n)
    isfield = m in R.facts.fields(R.adt(ty)) or ty.endswith("File") and (m in R.facts.fields(R.adt("FileOptions")) or m == "bytes_content")
    if isfield and f["body"]["argc"] == 1:
        def spec(args):
            v = stored(inner(args), m)
            return (v, K.wrap(ty, inner(args)), None)
        return "attribute " + m, spec
    if n in ("MAGIC", "MAGIC_SWAPPED"):
        return "constant " + n, lambda args: (num(MAGIC if n == "MAGIC" else MAGIC_SWAPPED), None, None)
    if n in ("update_metadata", "remove_metadata_field"):
        def spec(args):
            me = inner(args)
            md = R.f(me, ty, "metadata")
            (k, v), = rest(args)
            if n == "remove_metadata_field":
                r = app("map_remove", md, v)
            else:
                r = mapwith(md, v)
            return UNIT, K.wrap(ty, R.build(ty, me, metadata=r)), None
        return "operation " + n, spec
    if ty.endswith("Entry") and (n in OPERATORS or n == "__cmp__" or n == "cmp_by"):
        def spec(args):
            me = inner(args)
            rs = dict(rest(args))
            other = [v for v in rs.values() if v.k == "agg"]
            o = unwrapped(K, other[0])
            flags = {k: v for k, v in rs.items() if v is not other[0]}
            d = R.method("EntryCmpByOptions", "default", "Default")
            opts = K.rust(d, [])[0]
            if n == "cmp_by":
                base = options_of(K, EMPTY)
                fs = {}
                for x in R.facts.fields(R.adt("EntryCmpByOptions")):
                    if x[3:] in flags:
                        fs[x] = flags[x[3:]]
                    elif x in flags:
                        fs[x] = flags[x]
                opts = R.build("EntryCmpByOptions", base, **fs)
            v = K.rust(R.method(ty, "cmp_by"), [me, o, opts])[0]
            if n in OPERATORS:
                ks = [num(1 if j in OPERATORS[n] else 0) for j in range(3)]
            else:
                ks = [num(-1), num(0), num(1)]
            return discr_switch(v, ORD, tuple(ks)), None, None
        return "comparison " + n, spec
    if n == "__str__":
        return "text", lambda args: (app("display", inner(args)), None, None)
    if n in ("__eq__", "__ne__") and ty.endswith("File"):
        def spec(args):
            a, b = [app("display", unwrapped(K, v)) for v in args.values() if v.k == "agg"]
            e = veq(a, b)
            return bval(e if n == "__eq__" else bnot(e)), None, None
        return "comparison " + n, spec
    if n == "__len__":
        return "length", lambda args: (slen(R.f(inner(args), ty, "entries")), None, None)
    if n == "__getitem__":
        def spec(args):
            (k, v), = rest(args)
            S = R.f(inner(args), ty, "entries")
            x = ite(icmp("lt", v, slen(S)), ok(K.wrap(entry_of(ty), app("nth", S, v))), err(app("pyerr", lit("pyo3::exceptions::PyIndexError"), lit("Index out of range"))))
            return x, None, None, True
        return "item", spec
    if n == "__contains__":
        def spec(args):
            me = inner(args)
            o = unwrapped(K, rest(args)[0][1])
            et = entry_of(ty)
            ctx = R.f(o, et, "msgctxt")
            a = lambda x: K.rust(R.method(ty, "find_by_msgid_msgctxt"), [me, R.f(o, et, "msgid"), x])[0]
            b = K.rust(R.method(ty, "find_by_msgid"), [me, R.f(o, et, "msgid")])[0]
            return opt(ctx, bval(is_some(b)), lambda x: bval(is_some(a(x)))), None, None
        return "membership", spec
    if n == "__iter__":
        def spec(args):
            me = inner(args)
            return agg(iterator(K, ty), 0, [R.f(me, ty, "entries")]), None, None
        return "iteration", spec
    if n == "append":
        def spec(args):
            me = inner(args)
            o = unwrapped(K, rest(args)[0][1])
            return UNIT, K.wrap(ty, R.build(ty, me, entries=cat(R.f(me, ty, "entries"), one(o)))), None
        return "append", spec
    if n.startswith("as_bytes") and ty == "POFile":
        def spec(args):
            me = inner(args)
            conv = K.L.impl(R.adt("MOFile"), "from", "std::convert::From<&%s>" % R.adt("POFile"))
            mo = K.rust(conv, [me])[0]
            g, sg = K.method("MOFile", n)
            return K.rust(g, [mo] + [v for _, v in rest(args)], sg)[0], None, None
        return "operation " + n, spec
    if rf:
        def spec(args):
            me = inner(args)
            rs = dict(rest(args))
            g = R.facts.fns[rf]
            ns = K.params(g)[1:]
            vals = [me]
            if sorted(ns) == sorted(rs):
                vals += [unwrapped(K, rs[x]) for x in ns]
            else:
                ts = [norm(R.facts.ts(g["body"]["locals"][j + 2])).lstrip("&") for j in range(len(ns))]
                if len(rs) != len(ns) or len(rs) > 1 and len(set(ts)) < len(ts):
                    raise Skip("arguments")
                vals += [unwrapped(K, v) for v in rs.values()]
            r, me2, disk = K.rust(rf, vals, sf)
            return outward(K, ty, g, r), K.wrap(ty, me2) if me2 is not me else K.wrap(ty, me), disk
        return "operation " + n, spec
    return None, None


def K_raw(v):
    """the list of Rust values below a list of Python objects"""
    it, = v.a[0]
    return it[1]


def mapwith(md, new):
    """md after inserting the pairs of new"""
    import loops

    S = app("mapiter", new)
    e = elem(S, -1)
    a = sym("§all")
    return loops.fold_of(S, e, [(a, md, app("map_insert", a, field(e, 0, "tuple"), field(e, 1, "tuple")))])[0]


def options_of(K, pairs):
    R = K.R
    for i, f in R.facts.fns.items():
        if f["name"] == "from" and f.get("body") and f.get("impl_self") is not None and last(norm(R.facts.ts(f["impl_self"]))) == "EntryCmpByOptions":
            t = norm(R.facts.ts(f["body"]["locals"][1]))
            if "(std::string::String, bool)" in t:
                return K.rust(i, [pairs])[0]
    raise Skip("options from pairs")


def outward(K, ty, g, r):
    """a Rust result as Python objects"""
    t = norm(K.R.facts.ts(g["body"]["locals"][0]))
    e = entry_of(ty)
    p = K.R.adt(e)
    if t in ("std::vec::Vec<&%s>" % p, "std::vec::Vec<%s>" % p):
        return over(r, lambda x: one(K.wrap(e, x)))
    if t in ("std::option::Option<&%s>" % p, "std::option::Option<%s>" % p):
        return opt(r, NONE, lambda x: some(K.wrap(e, x)))
    if t == p:
        return K.wrap(e, r)
    return r


def iterator(K, ty):
    """the class of the iterator over entries"""
    for p, a in K.L.facts.adts.items():
        if a["local"] and a["kind"] == "struct" and len(a["variants"][0]["fields"]) == 1:
            t = norm(K.L.facts.ts(a["variants"][0]["fields"][0]["ty"]))
            if t == "std::vec::IntoIter<%s>" % K.R.adt(entry_of(ty)):
                return p
    raise Skip("iterator")


def opened(K, ty, args):
    """what reading gives, as a Python result"""
    R = K.R
    fn = K.R.free("pofile" if ty == "POFile" else "mofile")
    vals = [v for _, v in args]
    conv = None
    for i, f in R.facts.fns.items():
        if f["name"] == "from" and f.get("body") and f.get("impl_self") is not None and last(norm(R.facts.ts(f["impl_self"]))) == "FileOptions" and norm(R.facts.ts(f["body"]["locals"][1])) == "(&str, usize)":
            conv = i
    o = K.rust(c_need(conv), [tup(*vals)])[0]
    r = K.rust(fn, [o])[0]
    exc = "SyntaxError" if ty == "POFile" else "IOError"
    e = vfield(r, 1, 0)
    return discr_switch(r, RES, (ok(K.wrap(ty, vfield(r, 0, 0))), err(app("pyerr", lit("exceptions::" + exc), app("display", e)))))


def c_need(x):
    if x is None:
        raise Skip("options from path and width")
    return x


def c23(c):
    K = Classes(c)
    for i, f, ty in K.methods():
        what, spec = method_spec(K, i, f, ty)
        if what is None:
            continue
        c.part("%s %s" % (ty, f["name"]), obligation, K, "%s: %s" % (ty, what), i, f, spec)
    K.c.part("iterators", iterators, K)
    K.c.part("functions", functions, K, True)
    K.c.part("defaults", defaults, K)


def iterators(K):
    """each step of an iterator gives the next entry and leaves the rest"""
    for ty in ("POFile", "MOFile"):
        p = iterator(K, ty)
        e = entry_of(ty)
        for i, f in sorted(K.L.facts.fns.items()):
            if f["name"] != "__next__" or f.get("impl_self") is None or not f.get("body") or norm(K.L.facts.ts(f["impl_self"])) != p:
                continue
            S = sym("rest.%s" % ty)
            inputs = {S: lambda g, e=e: [g.ty(K.R.ty_of(e)) for _ in range(g.r.choice((0, 1, 2, 3)))]}
            s = K.L.summary(i, args=[agg(p, 0, [S])])
            spec = ite(empty(S), NONE, some(K.wrap(e, app("nth", S, num(0)))))
            K.c.same("%s: next entry" % ty, i, s.ret, spec, inputs, lib=K.L, facts=K.R.facts)


def functions(K, results):
    """module functions: what reading and escaping give, failures as exceptions"""
    c = K.c
    for i, f in sorted(K.L.facts.fns.items()):
        if not f.get("body") or f.get("impl_self") is not None or f.get("kind") == "Closure" or f.get("expanded") or f["kind"] != "Fn":
            continue
        t = norm(K.L.facts.ts(f["body"]["locals"][0]))
        if not t.startswith("std::result::Result<"):
            continue
        t = t[len("std::result::Result<"):].rsplit(", ", 1)[0]
        calls = called(K, i)
        if t in K.of:
            ty = K.of[t]
            spec = lambda args, ty=ty: (opened(K, ty, list(args.items())), None, None, True)
            obligation(K, "%s: module function" % ty, i, f, spec)
        elif t == "std::string::String" and f["body"]["argc"] == 1 and K.R.unesc in calls:
            def spec(args):
                r = T.mk("app", "unescape", (list(args.values())[0],))
                T.ENUM_OF.setdefault(r, RES)
                return discr_switch(r, RES, (ok(vfield(r, 0, 0)), err(app("pyerr", lit("exceptions::EscapingError"), app("display", vfield(r, 1, 0)))))), None, None, True
            obligation(K, "unescape: module function", i, f, spec)
        elif t == "std::string::String" and f["body"]["argc"] == 1 and K.R.esc in calls and results:
            obligation(K, "escape: module function", i, f, lambda args: (app("escape", list(args.values())[0]), None, None))


def called(K, i):
    out = set()
    for k in callees(K.L.facts.fns[i]):
        try:
            out.add(K.L.target(k, None))
        except Exception:
            pass
    return out


DEFAULTS = {"wrapwidth": num(78), "path_or_content": EMPTY, "by": lit("msgid"), "include_obsolete_entries": num(0), "msgid": EMPTY, "msgstr": NONE, "msgid_plural": NONE, "msgstr_plural": EMPTY, "msgctxt": NONE, "tcomment": NONE, "comment": NONE, "flags": EMPTY}


def defaults(K):
    """arguments left out take their documented values"""
    for i, f in sorted(K.L.facts.fns.items()):
        if not f.get("body") or "__py" not in f["name"] or f.get("kind") == "Closure":
            continue
        seen = K.L.left_out = []
        try:
            K.L.summary(i, key="wrapper", limit=20)
        except Exception as x:
            if not seen:
                continue
        finally:
            K.L.left_out = None
        for name, v in seen:
            flag = "cmp_by" in f["name"]
            want = num(1) if flag else DEFAULTS.get(name)
            if want is None:
                continue
            n = "%s: default of %s" % (i.split("::")[-1].replace("__pymethod_", "").strip("_"), name)
            K.c.same(n, i, v, want, {}, lib=K.L)


def c24(c):
    K = Classes(c)
    c.part("functions", functions, K, False)
    for i, f, ty in K.methods():
        if f["name"] in ("new", "__getitem__") and K.result(f, None):
            what, spec = method_spec(K, i, f, ty)
            c.part("%s %s" % (ty, f["name"]), obligation, K, "%s: %s" % (ty, what), i, f, spec)
    for i, f, ty in K.methods():
        c.part("%s %s" % (ty, f["name"]), no_panic, K, i, f, "%s %s" % (ty, f["name"]))
    for i, f in sorted(K.L.facts.fns.items()):
        if f.get("body") and f.get("impl_self") is None and f.get("kind") == "Fn" and not f.get("expanded") and norm(K.L.facts.ts(f["body"]["locals"][0])).startswith("std::result::Result<") and f["body"]["argc"] <= 2 and f["name"] != K.L.facts.crate.replace("-", "_"):
            if K.R.free("pofile") in called(K, i) or K.R.free("mofile") in called(K, i) or K.R.unesc in called(K, i) or K.R.esc in called(K, i):
                c.part(f["name"], no_panic, K, i, f, f["name"])
    c.part("module", module, K)


def no_panic(K, i, f, name):
    """nothing that fails is reached in the Python crate"""
    s, args, inputs = K.call(i, f)
    bad = F
    where_ = []
    for e in s.events:
        if e.kind.startswith("panic:") and e.pc is not F and e.site[1] and "python/" in str(e.site[1][0]):
            bad = bor(bad, e.pc)
            where_.append("%s at %s:%s" % (e.kind[6:], e.site[1][0], e.site[1][1]))
    K.c.never("%s does not panic" % name, i, bad, inputs, lib=K.L, facts=K.R.facts, funs=lambda val, g: funs_for(K, bval(bad)), why="; ".join(where_[:3]))


def module(K):
    """the exceptions are registered under their own names"""
    for i, f in sorted(K.L.facts.fns.items()):
        if not f.get("body") or f.get("impl_self") is not None or f.get("kind") != "Fn":
            continue
        if not any(k["def"].endswith("PyModule::add_class") for k in callees(f)):
            continue
        seen = K.L.added = []
        K.L.summary(i, key="module", limit=30)
        K.L.added = None
        names = {}
        for n, t in seen:
            names[n] = t
        for n in ("IOError", "SyntaxError", "EscapingError"):
            got = names.get(n)
            if got is None:
                K.c.record("exception %s of the module" % n, i, "undecided", "not found", lib=K.L)
            elif got.split("::")[-1] == n:
                K.c.record("exception %s of the module" % n, i, "proved", lib=K.L)
            else:
                K.c.record("exception %s of the module" % n, i, "violated", "is the class %s" % got, {"name": n, "class": got}, lib=K.L)
