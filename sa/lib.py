"""What the rules share: lookup by public name, summaries, obligations."""
import sys
import time
import traceback

import terms as T
import seqs as Q
import facts as FX
import interp
import models
import more  # noqa: F401
import decide
import ev
from terms import (
    BOT, F, TR, UNIT, NONE, EMPTY, OPT, RES, num, lit, sym, app, mk, cat, one, each, elem, idx, field, vfield, some, ok, err, tup,
    ite, band, bor, bnot, bval, bnorm, icmp, add, sub, mul, agg, seq, slen, show, discr_switch, switch,
)


def last(p):
    return FX.split_generics(FX.strip_lt(p)).split("::")[-1]


class Summary(object):
    def __init__(self, fn, ret, st, I, args, inputs):
        self.fn, self.ret, self.st, self.I, self.args, self.inputs = fn, ret, st, I, args, inputs

    def mem(self, name):
        return self.st.mem[("n", name)]

    @property
    def events(self):
        return self.I.events


class Lib(object):
    """one crate under analysis"""

    def __init__(self, path):
        self.facts = FX.Facts(path)
        self.cache = {}
        self.fns_seen = set()
        self.opaque = {}
        self.roles()

    # -------------------------------------------------------------- lookup

    def method(self, ty, name, trait=None, targ=None):
        for i, f in self.facts.fns.items():
            if f["name"] != name or not f.get("body"):
                continue
            if f.get("impl_self") is None:
                continue
            s = FX.strip_lt(self.facts.ts(f["impl_self"]))
            if last(s) != ty and s != ty:
                continue
            tr = f.get("impl_trait")
            if trait is None:
                if tr:
                    continue
            elif not tr or last(tr) != trait:
                continue
            if targ is not None:
                ta = [FX.strip_lt(self.facts.ts(x)) for x in (f.get("impl_trait_args") or [])[1:]]
                if not any(targ == a or targ == norm(a) for a in ta):
                    continue
            return i
        # default methods of traits
        if trait:
            for i, f in self.facts.fns.items():
                if f["name"] == name and f.get("body") and f.get("of_trait") and last(f["of_trait"]) == trait:
                    return i
        return None

    def free(self, name):
        """free function by name; public ones first"""
        c = [
            i for i, f in self.facts.fns.items()
            if f["name"] == name and f.get("body") and f.get("impl_self") is None and not f.get("of_trait")
            and f.get("kind") not in ("Closure",)
        ]
        c.sort(key=lambda i: not self.facts.fns[i].get("reachable"))
        return c[0] if c else None

    def adt(self, name):
        for p, a in self.facts.adts.items():
            if a["local"] and p.split("::")[-1] == name:
                return p
        return None

    def ty_of(self, name):
        """type index of a local ADT"""
        p = self.adt(name)
        for i, t in enumerate(self.facts.types):
            if t["k"] == "adt" and t.get("adt") == p:
                return i
        return None

    def ty_named(self, s):
        for i, t in enumerate(self.facts.types):
            if FX.strip_lt(t["s"]) == s:
                return i
        return None

    def f(self, v, ty, name):
        """field of a local struct value by name"""
        p = self.adt(ty)
        i = self.facts.field_ix(p, name)
        r = field(v, i, p)
        t = self.facts.adts[p]["variants"][0]["fields"][i].get("ty")
        return T.hint(r, FX.strip_lt(self.facts.ts(t))) if t is not None else r

    def build(self, ty, base=None, **fs):
        p = self.adt(ty)
        names = self.facts.fields(p)
        out = []
        for n in names:
            out.append(fs[n] if n in fs else self.f(base, ty, n))
        return agg(p, 0, out)

    def variant(self, ty, name):
        p = self.adt(ty)
        for i, v in enumerate(self.facts.adts[p]["variants"]):
            if v["name"] == name:
                return i
        return None

    def span(self, fn):
        b = self.facts.fns[fn].get("body") if fn in self.facts.fns else None
        return "%s:%s" % tuple(b["span"][:2]) if b else "?"

    # -------------------------------------------------------------- roles

    def reaches(self, fn, pat, seen=None):
        """function ids from which a callee whose path contains pat is called"""
        seen = set() if seen is None else seen
        if fn in seen:
            return False
        seen.add(fn)
        f = self.facts.fns.get(fn)
        if not f or not f.get("body"):
            return False
        for k in callees(f):
            if pat in k["def"]:
                return True
            if k["def"] in self.facts.fns and self.reaches(k["def"], pat, seen):
                return True
        return False

    def roles(self):
        self.esc = self.free("escape")
        self.unesc = self.free("unescape")
        self.wrap = None
        for i, f in self.facts.fns.items():
            if f.get("impl_self") is not None or not f.get("body") or f.get("kind") == "Closure":
                continue
            b = f["body"]
            if norm(self.facts.ts(b["locals"][0])) != "std::vec::Vec<std::string::String>":
                continue
            tys = [self.facts.types[b["locals"][j + 1]] for j in range(b["argc"])]
            if len(tys) != 2 or sorted(t["s"] if t["k"] == "int" else "str" for t in tys) != ["str", "usize"]:
                continue
            if self.reaches(i, "unicode_linebreak::linebreaks"):
                self.wrap = i
        op = {}
        if self.esc:
            op[self.esc] = lambda I, st, a: app("escape", I.dd(st, a[0]))
        if self.unesc:

            def un(I, st, a):
                t = mk("app", "unescape", (I.dd(st, a[0]),))
                T.ENUM_OF.setdefault(t, RES)
                return t

            op[self.unesc] = un
        if self.wrap:
            b = self.facts.fns[self.wrap]["body"]
            ix = 0 if self.facts.types[b["locals"][1]]["k"] != "int" else 1

            def wr(I, st, a):
                return mk("app", "wrap", (I.dd(st, a[ix]), I.dd(st, a[1 - ix])))

            op[self.wrap] = wr
        self.opaque = op

    # -------------------------------------------------------------- summaries

    def arg(self, fn, i):
        # distinct names per function: facts about a value do not leak
        return sym("%s.%d" % (fn, i))

    def summary(self, fn, args=None, names=None, inline=(), extra=None, ctx=TR, tyenv=None, limit=120.0, key=None):
        """values and effects of a function for all arguments"""
        ck = (fn, tuple(args) if args is not None else None, tuple(inline), key, ctx)
        if ck in self.cache:
            r = self.cache[ck]
            if isinstance(r, Exception):
                raise r
            return r
        f = self.facts.fns[fn]
        op = {k: v for k, v in self.opaque.items() if k not in inline and k != fn}
        if extra:
            op.update(extra)
        I = interp.Interp(self.facts, models.M, op)
        I.extern = getattr(self, "extern", None)
        mem = {}
        av = []
        inputs = {}
        for a in range(f["body"]["argc"]):
            ty = f["body"]["locals"][a + 1]
            t0 = self.facts.types[ty]
            if args is not None and args[a] is not None:
                s = args[a]
            else:
                s = self.arg(fn, a)
            if s.k == "sym":
                inputs[s] = ty
            if t0["k"] == "ref" and t0.get("mut"):
                mem[("n", "arg%d" % a)] = s
                av.append(I.ref(("n", "arg%d" % a)))
            else:
                av.append(s)
        old = T.DEADLINE[0]
        T.DEADLINE[0] = min(time.time() + limit, old or 1e18)
        try:
            r, st = I.run(fn, av, mem=mem, ctx=ctx, tyenv=tyenv)
            s = Summary(fn, r, st, I, av, inputs)
            self.cache[ck] = s
        except Exception as x:
            self.cache[ck] = x
            raise
        finally:
            T.DEADLINE[0] = old
        self.fns_seen |= I.analysed
        self.fns_seen.add(fn)
        return s


def norm(s):
    return FX.strip_lt(s)


def callees(f):
    for b in f["body"]["blocks"]:
        t = b["t"]
        k = None
        if isinstance(t, dict):
            k = t.get("f")
        else:
            k = t[1] if t[0] in ("call", "tailcall") else None
        yield from consts_fn(t)
        for s in b["st"]:
            yield from consts_fn(s)


def consts_fn(x):
    if isinstance(x, dict):
        if "def" in x:
            yield x
        for v in x.values():
            yield from consts_fn(v)
    elif isinstance(x, list):
        for v in x:
            yield from consts_fn(v)


class Skip(Exception):
    pass


class Check(object):
    """obligations of one property"""

    def __init__(self, pid, lib, py=None, seed=1, tier="quick"):
        self.pid, self.lib, self.py, self.seed, self.tier = pid, lib, py, seed, tier
        self.obl = []
        self.violations = []
        self.findings = []
        self.known_hits = []
        self.t0 = time.time()

    def record(self, name, fn, verdict, why="", witness=None, lib=None):
        lib = lib or self.lib
        o = {"obligation": name, "function": fn, "at": lib.span(fn) if fn else None, "verdict": verdict}
        if why:
            o["detail"] = why[:600]
        if witness:
            o["witness"] = witness
        self.obl.append(o)
        if verdict == "violated":
            self.violations.append(o)

    def same(self, name, fn, code, spec, inputs, lib=None, **kw):
        lib = lib or self.lib
        note = kw.pop("why", "")
        kw.setdefault("n", 600 if self.tier == "quick" else 4000)
        kw.setdefault("limit", 20.0 if self.tier == "quick" else 90.0)
        try:
            r = decide.compare(code, spec, inputs, kw.pop("facts", None) or lib.facts, seed=self.seed, **kw)
        except Exception as x:
            self.record(name, fn, "undecided", "%s: %s" % (type(x).__name__, str(x)[:300]), lib=lib)
            return False
        if r.verdict == "equal":
            self.record(name, fn, "proved", r.why, lib=lib)
            return True
        if r.verdict == "different":
            self.record(name, fn, "violated", "summary differs from the specification", r.witness, lib=lib)
            return False
        self.record(name, fn, "undecided", "%s (%d assignments agree)" % (note or r.why, r.samples), lib=lib)
        return False

    def known(self, key, fn):
        """listed as a finding in the code as it is"""
        for k in self.findings:
            if k.get("property") == self.pid and k.get("key") == key and k.get("function") == last(fn.split(">::")[0].split(" as ")[0].lstrip("<")) + "::" + last(fn):
                self.known_hits.append(k)
                return True
        return False

    def never(self, name, fn, cond, inputs, lib=None, **kw):
        """the condition holds at no input"""
        return self.same(name, fn, bval(cond), F, inputs, lib=lib, **kw)

    def part(self, name, f, *a):
        """run one section of a rule; analysis failures leave it undecided"""
        try:
            return f(*a)
        except Skip as x:
            self.record(name, None, "undecided", "skipped: %s" % x)
        except Exception as x:
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.record(name, None, "undecided", "%s: %s (%s:%d)" % (type(x).__name__, str(x)[:200], tb.filename.split("/")[-1], tb.lineno))

    def need(self, x, what):
        if x is None:
            raise Skip("no " + what)
        return x
