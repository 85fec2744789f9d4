"""Forward value-flow analysis over MIR.

Every function body is visited block by block in reverse post order.  Values
are merged at control-flow joins, calls to functions of the crate are
analysed in place, loops are summarised (see loop_solve).  The result of a
function is one term describing its value for all inputs, plus the list of
places where it could panic and of the effects it has, each with the
condition under which it happens.
"""
import terms as T
from terms import (
    BOT, F, TR, num, agg, mk, band, bor, bnot, bnorm, merge, lift, switch,
    field, vfield, replace, seq, items, cat, slen, elem, idx, app, UNIT,
    cond_of, NEG, POS, add, sub, mul, icmp, tup,
)
import seqs as Q
from facts import strip_lt, callee_key

slen, idx = Q.slen, Q.idx

BOXY = ("std::boxed::Box", "std::boxed::BoxRaw", "std::ptr::Unique", "std::ptr::NonNull",
        "std::mem::ManuallyDrop", "std::mem::MaybeUninit")


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


BITS = {
    "and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y, "bitand": lambda x, y: x & y,
    "bitor": lambda x, y: x | y, "bitxor": lambda x, y: x ^ y, "shr": lambda x, y: x >> y, "shl": lambda x, y: x << y,
}


class State(object):
    __slots__ = ("pc", "mem", "ctx")

    def __init__(self, pc, mem, ctx):
        self.pc = pc
        self.mem = mem
        self.ctx = ctx

    def absolute(self):
        return band(self.ctx, self.pc)

    def copy(self):
        return State(self.pc, dict(self.mem), self.ctx)


class Event(object):
    __slots__ = ("kind", "site", "pc", "data", "fn")

    def __init__(self, kind, site, pc, data, fn):
        self.kind, self.site, self.pc, self.data, self.fn = kind, site, pc, data, fn


class Cfg(object):
    def __init__(self, body):
        bl = body["blocks"]
        n = len(bl)
        self.succ = [self._succ(b) for b in bl]
        seen = set()
        post = []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        self.rpo = post[::-1]
        num_ = {b: i for i, b in enumerate(self.rpo)}
        pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                pred[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num_[x] > num_[y]:
                                    x = idom[x]
                                while num_[y] > num_[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                # back edge if s dominates b
                x = b
                while x != s and x != 0:
                    x = idom[x]
                if x == s:
                    L = self.loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        y = w.pop()
                        if y not in L:
                            L.add(y)
                            w.extend(pred[y])
        self.pos = num_

    @staticmethod
    def _succ(b):
        t = b["t"]
        k = t["t"]
        if b["cleanup"]:
            return []
        if k == "goto" or k == "drop" or k == "assert":
            return [t["to"]]
        if k == "call":
            return [t["to"]] if t.get("to") is not None else []
        if k == "switch":
            out = []
            for _, x in t["cases"]:
                if x not in out:
                    out.append(x)
            if t["else"] is not None and t["else"] not in out:
                out.append(t["else"])
            return out
        return []


class Frame(object):
    def __init__(self, f, body, fid, tyenv, cfg):
        self.f, self.body, self.fid, self.tyenv, self.cfg = f, body, fid, tyenv, cfg
        self.boxes = {}  # local that stands for a box: the place of the box


def prune(p, v, d=0):
    """v on the paths where p holds"""
    if v.k == "sw":
        return T.under(p, v)
    if v.k == "agg" and v.a[2] and d < 4:
        xs = [prune(p, x, d + 1) for x in v.a[2]]
        if any(x is not y for x, y in zip(xs, v.a[2])):
            return agg(v.a[0], v.a[1], xs)
    if v.k == "seq" and any(it[0] == "A" for it in v.a[0]):
        out = []
        for it in v.a[0]:
            if it[0] == "A":
                x = T.under(p, it[1])
                out.extend(T.items(x) if x.k != "sw" else [("A", x)])
            else:
                out.append(it)
        return T.seq(out)
    return v


class Loop(object):
    """summary record of one loop, kept for the rules"""

    def __init__(self):
        self.fn = None
        self.S = None
        self.cur = None
        self.phis = []  # (phi, initial, next, cell, path)
        self.cont = None
        self.exits = []


class Interp(object):
    MAXDEPTH = 60

    def __init__(self, facts, models, opaque=None):
        self.facts = facts
        self.models = models
        self.opaque = opaque or {}
        self.events = []
        self.loops = []
        self.fids = {}
        self.stack = []
        self.cfgs = {}
        self.promoted = {}
        self.consts = {}
        self.fninfo = {}
        self.unknown = {}
        self.nblocks = 0
        self.analysed = set()
        self.actS = {}
        self.heap = 0
        self.maxblocks = 400000
        self.extern = None

    # ------------------------------------------------------------ frames

    def fid_of(self, stack):
        k = tuple(stack)
        r = self.fids.get(k)
        if r is None:
            r = self.fids[k] = len(self.fids) + 1
        return r

    def cfg(self, f, body, key):
        c = self.cfgs.get(key)
        if c is None:
            c = self.cfgs[key] = Cfg(body)
        return c

    def site(self, at=None):
        fn = self.stack[-1][0] if self.stack else "?"
        return (fn, tuple(at) if at else None)

    def event(self, kind, st, cond, data, at=None):
        pc = band(st.ctx, st.pc, cond)
        self.events.append(Event(kind, self.site(at), pc, data, self.stack[-1][0] if self.stack else None))

    def obligation(self, kind, st, okc, data, at=None):
        """something that panics unless okc holds"""
        okc = bnorm(okc)
        if okc is not TR:
            fail = band(st.ctx, st.pc, bnot(okc))
        else:
            fail = F
        self.events.append(Event("panic:" + kind, self.site(at), fail, data, self.stack[-1][0] if self.stack else None))
        st.pc = band(st.pc, okc)

    # ------------------------------------------------------------ memory

    def new_cell(self, st, v):
        self.heap += 1
        c = ("h", self.heap)
        st.mem[c] = v
        return c

    def named_cell(self, st, name, v):
        c = ("n",) + tuple(name) if isinstance(name, tuple) else ("n", name)
        st.mem[c] = v
        return c

    def ref(self, cell, path=()):
        return mk("ref", cell, tuple(path))

    def walk(self, v, path):
        for pe in path:
            v = self.step(v, pe)
        return v

    def step(self, v, pe):
        k = pe[0]
        if k == "f":
            return field(v, pe[1], pe[2])
        if k == "vf":
            return vfield(v, pe[1], pe[2])
        if k == "i":
            return app("nth", v, pe[1])
        if k == "sl":
            return app("take", app("skip", v, pe[1]), sub(pe[2], pe[1]))
        if k == "mk":
            return vfield(app("map_get", v, pe[1]), 1, 0)
        raise Unsupported("path %r" % (pe,))

    def deref(self, st, v):
        """value behind a reference value (shared references are values)"""
        if v.k == "ref":
            b = st.mem.get(v.a[0])
            if b is None:
                return mk("app", "dangling", (v,))
            return self.deref(st, self.walk(b, v.a[1])) if False else self.walk(b, v.a[1])
        if v.k == "sw" and any(x.k == "ref" for x in T.leaves(v)):
            return lift(lambda x: self.deref(st, x), v)
        return v

    def dd(self, st, v):
        """dereference completely (through several reference levels)"""
        for _ in range(6):
            w = self.deref(st, v)
            if w is v:
                return v
            v = w
        return v

    def upd(self, v, path, new):
        if not path:
            return new
        pe = path[0]
        rest = path[1:]
        if v is BOT and pe[0] != "f":
            return BOT
        k = pe[0]
        if k == "f":
            ix, tag, ar = pe[1], pe[2], pe[3]
            if v.k == "sw":
                return lift(lambda x: self.upd(x, path, new), v)
            if v.k == "fn":
                env = list(v.a[1])
                env[ix] = self.upd(env[ix], rest, new)
                return mk("fn", v.a[0], tuple(env))
            if v is BOT:
                fs = [BOT] * ar
            elif v.k == "agg":
                fs = list(v.a[2])
            else:
                fs = [field(v, i, tag) for i in range(ar)]
            fs[ix] = self.upd(fs[ix], rest, new)
            return agg(tag, 0, fs)
        if k == "vf":
            var, ix, tag = pe[1], pe[2], pe[3]

            def f(x):
                if x.k == "agg":
                    if x.a[1] != var:
                        return BOT
                    fs = list(x.a[2])
                else:
                    fs = [vfield(x, var, j) for j in range(T.ENUM_VARIANTS[tag][var])]
                fs[ix] = self.upd(fs[ix], rest, new)
                return agg(tag, var, fs)

            return lift(f, v)
        if k == "i":
            i = pe[1]
            if rest:
                new = self.upd(app("nth", v, i), rest, new)
            return app("set", v, i, new)
        if k == "mk":
            if v.k == "sw":
                return lift(lambda x: self.upd(x, path, new), v)
            if rest:
                new = self.upd(vfield(app("map_get", v, pe[1]), 1, 0), rest, new)
            return app("map_insert", v, pe[1], new)
        if k == "sl":
            raise Unsupported("slice write")
        raise Unsupported("write %r" % (pe,))

    def write_ref(self, st, r, val):
        if r.k == "ref":
            c, p = r.a
            old = st.mem.get(c, BOT)
            st.mem[c] = self.upd(old, p, val)
            return
        if r.k == "sw":
            for x in T.leaves(r):
                if x.k == "ref":
                    c = cond_of(r, lambda y: y is x)
                    cell, p = x.a
                    old = st.mem.get(cell, BOT)
                    st.mem[cell] = merge([(c, self.upd(old, p, val)), (bnot(c), old)])
            return
        if r is not BOT and band(st.ctx, st.pc) is not F:
            self.lost(r)

    def lost(self, r):
        """a write that reaches no place: nothing read afterwards can be trusted"""
        raise Unsupported("write through " + str(r)[:120])

    def write_back(self, st, r, f):
        """apply f to the value behind r"""
        if r.k == "sw":
            for x in T.leaves(r):
                if x.k == "ref":
                    c = cond_of(r, lambda y: y is x)
                    cell, p = x.a
                    old = st.mem.get(cell, BOT)
                    nv = self.upd(old, p, f(self.walk(old, p)))
                    st.mem[cell] = merge([(c, nv), (bnot(c), old)])
            return
        self.write_ref(st, r, f(self.deref(st, r)))

    # ------------------------------------------------------------ places

    def arity(self, ty):
        t = self.facts.types[ty]
        if t["k"] == "tuple":
            return "tuple", len(t["args"])
        if t["k"] == "adt":
            a = self.facts.adts.get(t["adt"])
            if a and a["kind"] != "enum":
                fl = a["variants"][0]["fields"] if a["variants"] else []
                return t["adt"], len(fl)
        return None, 0

    def place_parts(self, fr, st, p, addr):
        """(value, address) of a place; address is (cell, path) or None"""
        local, proj = p
        cell = (fr.fid, local)
        ty = fr.body["locals"][local]
        v = None  # lazily loaded
        path = []
        base = cell
        if proj and local in fr.boxes:
            base, path = fr.boxes[local][0], list(fr.boxes[local][1])
        var = None
        types = self.facts.types

        def load():
            return self.walk(st.mem.get(base, BOT), path)

        val = None  # value when not addressable
        for pr in proj:
            if pr == "*":
                t = types[ty]
                if t["k"] == "adt" and t["adt"] == "std::boxed::Box":
                    ty = t["args"][0]
                    continue
                x = val if val is not None else load()
                if x.k == "ref":
                    base, path = x.a[0], list(x.a[1])
                    val = None
                elif x.k == "sw" and any(y.k == "ref" for y in T.leaves(x)):
                    return self._multi(fr, st, x, proj[proj.index(pr) + 1:] if False else self._rest(proj, pr), t, addr)
                else:
                    val = x
                ty = t["to"] if "to" in t else ty
                continue
            k = pr[0]
            if k == "v":
                var = pr[1]
                continue
            if k == "f":
                ix, owner, fty = pr[1], pr[3], pr[4]
                if owner in BOXY:
                    # pointer to the boxed value
                    if owner == "std::boxed::Box" and val is None:
                        return self.ref(base, path), (base, path), fty
                    ty = fty
                    continue
                tag, ar = self.arity(ty)
                if var is not None:
                    t = types[ty]
                    adt = t.get("adt")
                    if adt in T.TRANSPARENT:
                        var = None
                        ty = fty
                        continue
                    pe = ("vf", var, ix, adt)
                    var = None
                else:
                    pe = ("f", ix, tag if tag is not None else owner, ar)
                if val is not None:
                    val = self.step(val, pe)
                else:
                    path.append(pe)
                ty = fty
                continue
            if k == "i":
                i = st.mem.get((fr.fid, pr[1]), BOT)
                pe = ("i", i)
            elif k == "ci":
                off, minlen, fe = pr[1], pr[2], pr[3]
                x = val if val is not None else load()
                i = sub(slen(x), num(off)) if fe else num(off)
                pe = ("i", i)
            elif k == "ss":
                x = val if val is not None else load()
                frm, to, fe = pr[1], pr[2], pr[3]
                pe = ("sl", num(frm), sub(slen(x), num(to)) if fe else num(to))
            else:
                raise Unsupported("proj %r" % (pr,))
            if val is not None:
                val = self.step(val, pe)
            else:
                path.append(pe)
            t = types[ty]
            ty = t.get("to", ty)
        if val is not None:
            return val, None, ty
        return None, (base, path), ty

    @staticmethod
    def _rest(proj, pr):
        for i, x in enumerate(proj):
            if x is pr:
                return proj[i + 1:]
        return []

    def _multi(self, fr, st, refs, rest, t, addr):
        """place below a reference that has several possible targets"""
        ty0 = t["to"]
        vals = []
        addrs = []
        tyo = [ty0]

        def f(x):
            if x.k == "ref":
                b, p = x.a[0], list(x.a[1])
                v, a, ty = self._follow(fr, st, b, p, None, rest, ty0)
            else:
                v, a, ty = self._follow(fr, st, None, None, x, rest, ty0)
            tyo[0] = ty
            if addr:
                return self.ref(a[0], tuple(a[1])) if a else v
            if v is not None:
                return v
            return self.walk(st.mem.get(a[0], BOT), a[1])

        r = lift(f, refs)
        return r, None, tyo[0]

    def _follow(self, fr, st, base, path, val, rest, ty):
        tmp = ("tmp",)
        st.mem[tmp] = self.ref(base, tuple(path)) if base is not None else val
        try:
            fid = fr.fid
            loc = fr.body["locals"]
            # temporary local of reference type
            v, a, t2 = self.place_from(fr, st, st.mem[tmp], rest, ty)
        finally:
            del st.mem[tmp]
        return v, a, t2

    def place_from(self, fr, st, x, rest, ty):
        """continue projections from a (de)referenced value x"""
        class B(object):
            pass
        if x.k == "ref":
            base, path, val = x.a[0], list(x.a[1]), None
        else:
            base, path, val = None, None, x
        # emulate by a fake frame local
        fake = {"locals": {0: ty}}
        key = ("fk", 0)
        save = st.mem.get(key)
        if val is not None:
            st.mem[key] = val
            fr2 = Frame(None, {"locals": [ty]}, "fk", fr.tyenv, None)
            v, a, t = self.place_parts(fr2, st, [0, self._abs(fr, st, rest)], False)
            if v is None:
                v = self.walk(st.mem.get(a[0], BOT), a[1]) if a[0] == key else None
                if v is not None:
                    a = None
            st.mem.pop(key, None)
            return v, a, t
        st.mem[key] = x
        rt = None
        for i, tt in enumerate(self.facts.types):
            if tt["k"] == "ref" and tt.get("to") == ty:
                rt = i
                break
        if rt is None:
            self.facts.types.append({"k": "ref", "s": "&" + self.facts.ts(ty), "to": ty, "mut": True})
            rt = len(self.facts.types) - 1
        fr2 = Frame(None, {"locals": [rt]}, "fk", fr.tyenv, None)
        r = self.place_parts(fr2, st, [0, ["*"] + self._abs(fr, st, rest)], False)
        st.mem.pop(key, None)
        return r

    def _abs(self, fr, st, rest):
        out = []
        for p in rest:
            if p != "*" and p[0] == "i":
                st.mem[("fk", 1000 + p[1])] = st.mem.get((fr.fid, p[1]), BOT)
                out.append(["i", 1000 + p[1]])
            else:
                out.append(p)
        return out

    def load(self, fr, st, p):
        if not p[1]:
            return st.mem.get((fr.fid, p[0]), BOT)
        v, a, ty = self.place_parts(fr, st, p, False)
        if v is not None:
            return v
        return self.walk(st.mem.get(a[0], BOT), a[1])

    def store(self, fr, st, p, val):
        if not p[1]:
            st.mem[(fr.fid, p[0])] = val
            return
        v, a, ty = self.place_parts(fr, st, p, True)
        if a is not None:
            self.write_ref(st, self.ref(a[0], tuple(a[1])), val)
        elif v is not None:
            self.write_ref(st, v, val)

    def address(self, fr, st, p):
        v, a, ty = self.place_parts(fr, st, p, True)
        if a is not None:
            if v is not None:
                return v
            # reborrow through a shared value has no address
            return self.ref(a[0], tuple(a[1]))
        return v

    # ------------------------------------------------------------ operands

    def fnterm(self, k):
        key = (
            k["def"],
            tuple(strip_lt(self.facts.ts(a)) for a in k.get("args", ())),
            (k.get("res") or {}).get("def"),
        )
        self.fninfo.setdefault(key, k)
        return mk("fn", key, ())

    def const(self, fr, st, k):
        c = k["c"]
        if c == "fn":
            ty = k
            return self.fnterm(k)
        if c == "str":
            return T.lit(k["v"])
        if c == "bytes":
            return seq([("E", num(b)) for b in k["v"]])
        if c == "bool":
            return TR if k["v"] else F
        if c in ("char", "int"):
            return num(int(k["v"]))
        if c == "float":
            return mk("flt", float(k["v"]))
        if c == "unit":
            return UNIT
        if c == "enum":
            t = self.facts.types[k["ty"]]
            return agg(t["adt"], k["variant"], ())
        if c == "promoted":
            return self.eval_promoted(k["of"], k["ix"], st)
        if c == "item":
            return self.eval_item(k["def"], st, k)
        if c == "zst":
            t = self.facts.types[k["ty"]]
            if t["k"] == "closure":
                return mk("fn", t["def"], ())
            if t["k"] == "adt":
                return agg(t["adt"], 0, ())
            if t["k"] == "tuple":
                return UNIT
            return mk("sym", "zst:" + t["s"])
        if c == "static":
            return mk("sym", "static:" + k["def"])
        return mk("sym", "const:" + str(k.get("d", k)))

    def eval_promoted(self, of, ix, st):
        key = (of, ix)
        r = self.promoted.get(key)
        if r is None:
            f = self.facts.fns[of]
            body = f["promoted"][ix]
            s2 = State(TR, {}, TR)
            r = self.exec_body(f, body, [], s2, {}, ("promoted", ix), of + "#p%d" % ix)
            r = self.dd(s2, r)
            self.promoted[key] = r
        return r

    def eval_item(self, d, st, k):
        r = self.consts.get(d)
        if r is None:
            f = self.facts.fns.get(d)
            if f is None or not f.get("body"):
                r = mk("sym", "const:" + d)
            else:
                s2 = State(TR, {}, TR)
                r = self.dd(s2, self.exec_body(f, f["body"], [], s2, {}, ("const", d), d))
            self.consts[d] = r
        return r

    def operand(self, fr, st, o):
        if o["o"] == "const":
            return self.const(fr, st, o["k"])
        return self.load(fr, st, o["p"])

    # ------------------------------------------------------------ rvalues

    def rvalue(self, fr, st, v, at):
        r = v["r"]
        if r == "use":
            return self.operand(fr, st, v["a"])
        if r in ("ref", "rawref", "reborrow"):
            p = v["p"]
            if v.get("mut"):
                return self.address(fr, st, p)
            # shared reference: snapshot of the value, but a reference to a
            # mutable reference keeps the reference value
            x = self.load(fr, st, p)
            return x
        if r == "agg":
            ops = [self.operand(fr, st, o) for o in v["ops"]]
            k = v["k"]
            if k["a"] == "tuple":
                return agg("tuple", 0, ops)
            if k["a"] == "array":
                return seq([("E", o) for o in ops])
            if k["a"] == "closure":
                return mk("fn", k["def"], tuple(ops))
            if k["a"] == "adt":
                if k.get("active") is not None:
                    return ops[0]
                return agg(k["def"], k["variant"], ops)
            return app("aggother", *ops)
        if r == "discr":
            x = self.load(fr, st, v["p"])
            x = self.deref(st, x)
            t = self.facts.types[v["ty"]]
            adt = t.get("adt")
            a = self.facts.adts.get(adt)
            if a is None or adt in T.TRANSPARENT:
                return app("discr", x)
            ch = tuple(num(w["discr"]) for w in a["variants"])
            return T.discr_switch(x, adt, ch)
        if r == "bin":
            a = self.operand(fr, st, v["a"])
            b = self.operand(fr, st, v["b"])
            return self.binop(st, v["op"], a, b, v["ty"])
        if r == "un":
            a = self.operand(fr, st, v["a"])
            if v["op"] == "not":
                ty = v["a"].get("p")
                return T.bval(bnot(a)) if self.is_bool_op(fr, v["a"]) else app("not", a)
            if v["op"] == "neg":
                if a.k == "flt":
                    return mk("flt", -a.a[0])
                return T.neg(a)
            return slen(self.deref(st, a))
        if r == "cast":
            a = self.operand(fr, st, v["a"])
            return self.cast(st, v["k"], a, v["from"], v["to"])
        if r == "repeat":
            a = self.operand(fr, st, v["a"])
            n = v["n"]
            if n is not None and n <= 64:
                return seq([("E", a)] * n)
            return app("repeat", a, num(n or 0))
        return app("rv:" + r)

    def is_bool_op(self, fr, o):
        if o["o"] == "const":
            return o["k"]["c"] == "bool"
        ty = self.place_ty(fr, o["p"])
        return self.facts.types[ty]["k"] == "bool"

    def place_ty(self, fr, p):
        ty = fr.body["locals"][p[0]]
        for pr in p[1]:
            t = self.facts.types[ty]
            if pr == "*":
                ty = t["args"][0] if t["k"] == "adt" else t.get("to", ty)
            elif pr[0] == "f":
                ty = pr[4]
            elif pr[0] in ("i", "ci"):
                ty = t.get("to", ty)
        return ty

    def binop(self, st, op, a, b, ty):
        t = self.facts.types[ty]
        if op in ("eq", "ne", "lt", "le", "gt", "ge"):
            if t["k"] == "float":
                return app("f" + op, a, b)
            if t["k"] == "bool":
                e = bor(band(a, b), band(bnot(a), bnot(b)))
                if op == "eq":
                    return T.bval(e)
                if op == "ne":
                    return T.bval(bnot(e))
                if op == "lt":
                    return T.bval(band(bnot(a), b))
                if op == "gt":
                    return T.bval(band(a, bnot(b)))
                return T.bval(bor(bnot(a), b) if op == "le" else bor(a, bnot(b)))
            return icmp(op, a, b)
        if t["k"] == "float":
            return app("f" + op, a, b)
        if op in ("add", "addo", "sub", "subo", "mul", "mulo"):
            base = op[:3]
            r = {"add": add, "sub": sub, "mul": mul}[base](a, b)
            if op.endswith("o"):
                if base == "sub":
                    fl = icmp("lt", a, b) if not t["s"].startswith("i") else F
                else:
                    fl = self.overflow(st, base, a, b, t["s"])
                return tup(r, fl)
            return r
        if op in ("bitand", "bitor", "bitxor", "and", "or", "xor") and t["k"] == "bool":
            if op in ("bitand", "and"):
                return T.bval(band(a, b))
            if op in ("bitor", "or"):
                return T.bval(bor(a, b))
            return T.bval(bor(band(a, bnot(b)), band(bnot(a), b)))
        if op in ("div", "rem") and t["k"] == "int":
            def f(x, y):
                if x.k == "int" and y.k == "int" and y.a[0]:
                    return num(x.a[0] // y.a[0]) if op == "div" else num(x.a[0] % y.a[0])
                return app(op, x, y)
            return lift(f, a, b)
        if op in BITS:
            return lift(lambda x, y: num(BITS[op](x.a[0], y.a[0])) if x.k == "int" and y.k == "int" and op != "shl" else mk("app", "bin:" + op, (x, y)), a, b)
        return app("bin:" + op, a, b)

    def overflow(self, st, op, a, b, ts):
        if a.k == "int" and b.k == "int":
            lim = {"u8": 1 << 8, "u16": 1 << 16, "u32": 1 << 32}.get(ts, 1 << 64)
            r = a.a[0] + b.a[0] if op == "add" else a.a[0] * b.a[0]
            return T.boolt(r >= lim)
        self.event("arith", st, TR, (op, a, b, ts))
        return F

    def cast(self, st, k, a, frm, to):
        if k == "int":
            tf, tt = self.facts.types[frm], self.facts.types[to]
            w = {"u8": 8, "i8": 8, "i16": 16, "u16": 16, "u32": 32, "i32": 32, "char": 32, "bool": 1,
                 "u64": 64, "usize": 64, "i64": 64, "isize": 64, "u128": 128, "i128": 128}
            if tf["s"] == "i8" and tt["s"][0] == "i":
                # enum discriminants are kept as their bits
                a = lift(lambda x: num(x.a[0] - 256) if x.k == "int" and 128 <= x.a[0] < 256 else x, a)
            if w.get(tt["s"], 64) >= w.get(tf["s"], 64):
                return a

            def f(x):
                if x.k == "int":
                    return num(x.a[0] & ((1 << w[tt["s"]]) - 1))
                return app("as_" + tt["s"], x)
            return lift(f, a)
        if k == "inttofloat":
            return lift(lambda x: mk("flt", float(x.a[0])) if x.k == "int" else app("as_float", x), a)
        return a

    # ------------------------------------------------------------ execution

    def exec_fn(self, f, args, st, tyenv, site):
        if len(self.stack) > self.MAXDEPTH or sum(1 for s in self.stack if s[0] == f["id"]) > 2:
            raise Unsupported("recursion in " + f["id"])
        if len(args) != f["body"]["argc"]:
            raise Unsupported("arguments of " + f["id"])
        return self.exec_body(f, f["body"], args, st, tyenv, site, f["id"])

    def exec_body(self, f, body, args, st, tyenv, site, key):
        self.analysed.add(f["id"])
        self.stack.append((f["id"], site))
        try:
            fid = self.fid_of(self.stack)
            fr = Frame(f, body, fid, tyenv, self.cfg(f, body, key))
            mem = dict(st.mem)
            for i, a in enumerate(args):
                mem[(fid, i + 1)] = a
            ctx = band(st.ctx, st.pc)
            outs = self.region(fr, None, 0, TR, mem, ctx)
            rets = outs.get("ret", [])
            if not rets:
                st.pc = F
                st.mem = {}
                return BOT
            pc, mem = self.join(rets)
            r = mem.get((fid, 0), UNIT)
            for c in [c for c in mem if c[0] == fid]:
                del mem[c]
            st.mem = mem
            st.pc = band(st.pc, pc)
            return r
        finally:
            self.stack.pop()

    def join(self, edges):
        edges = [e for e in edges if e[0] is not F]
        if not edges:
            return F, {}
        if len(edges) == 1:
            return edges[0]
        pc = bor(*[e[0] for e in edges])
        keys = {}
        for e in edges:
            for k in e[1]:
                keys[k] = None
        mem = {}
        for k in keys:
            v0 = edges[0][1].get(k, BOT)
            same = True
            for e in edges[1:]:
                if e[1].get(k, BOT) is not v0:
                    same = False
                    break
            mem[k] = v0 if same else merge([(e[0], e[1].get(k, BOT)) for e in edges])
        return pc, mem

    def region(self, fr, blocks, entry, pc, mem, ctx):
        """run a single-entry region; edges leaving it are returned by target"""
        pend = {entry: [(pc, mem)]}
        outs = {}
        first = True
        for b in fr.cfg.rpo:
            if blocks is not None and b not in blocks:
                continue
            if b not in pend:
                continue
            edges = pend.pop(b)
            pc, mem = self.join(edges)
            if pc is F:
                continue
            if b in fr.cfg.loops and not (blocks is not None and b == entry):
                res = self.mir_loop(fr, b, pc, mem, ctx)
            else:
                st = State(pc, dict(mem), ctx)
                res = self.block(fr, b, st)
            for t, p, m in res:
                if p is F:
                    continue
                if t == "ret" or (blocks is not None and (t not in blocks or t == entry)):
                    outs.setdefault(t, []).append((p, m))
                else:
                    pend.setdefault(t, []).append((p, m))
        return outs

    def mir_loop(self, fr, h, pc, mem, ctx):
        L = fr.cfg.loops[h]
        fid = fr.fid

        def body(st):
            outs = self.region(fr, L, h, st.pc, st.mem, st.ctx)
            res = []
            for t, es in outs.items():
                p, m = self.join(es)
                res.append(("back" if t == h else t, p, m))
            return res

        return self.loop_solve((fid, h), pc, mem, ctx, body, fr.f["id"])

    def block(self, fr, b, st):
        self.nblocks += 1
        if self.nblocks > self.maxblocks:
            raise Budget("too many blocks")
        bl = fr.body["blocks"][b]
        for s in bl["st"]:
            k = s["s"]
            if k == "=":
                v = self.rvalue(fr, st, s["v"], s.get("at"))
                self.store(fr, st, s["p"], v)
                if not s["p"][1]:
                    self.box_alias(fr, st, s["p"][0], s["v"])
            elif k == "dead":
                st.mem.pop((fr.fid, s["l"]), None)
            elif k == "setdiscr":
                pass
        t = bl["t"]
        k = t["t"]
        if k == "goto" or k == "drop":
            return [(t["to"], st.pc, st.mem)]
        if k == "return":
            return [("ret", st.pc, st.mem)]
        if k in ("unreachable", "resume"):
            return []
        if k == "assert":
            c = self.operand(fr, st, t["c"])
            c = bnorm(c)
            okc = c if t["exp"] else bnot(c)
            ops = tuple(self.operand(fr, st, o) for o in t.get("ops", ()))
            self.obligation(t["k"], st, okc, ops, t.get("at"))
            return [(t["to"], st.pc, st.mem)]
        if k == "switch":
            return self.do_switch(fr, st, t)
        if k == "call":
            return self.do_call(fr, st, t, b)
        raise Unsupported("terminator " + k)

    def box_alias(self, fr, st, l, rv):
        """a box is copied only to reach what it holds"""
        fr.boxes.pop(l, None)
        if rv["r"] != "use" or rv["a"]["o"] != "copy":
            return
        t = self.facts.types[fr.body["locals"][l]]
        if t["k"] != "adt" or t["adt"] != "std::boxed::Box":
            return
        _, a, _ = self.place_parts(fr, st, rv["a"]["p"], True)
        if a is not None:
            fr.boxes[l] = (a[0], list(a[1]))

    def do_switch(self, fr, st, t):
        v = self.operand(fr, st, t["d"])
        ty = self.facts.types[t["ty"]]
        cases = t["cases"]
        dflt = t["else"]
        tg = {int(c): x for c, x in cases}
        if ty["k"] == "bool":
            v = bnorm(v)

        def leaf(x):
            if x.k == "int":
                d = tg.get(x.a[0], dflt)
                return num(d) if d is not None else BOT
            tag = T.ENUM_OF.get(x)
            if tag in T.ENUM_VARIANTS:
                ch = []
                for i in range(len(T.ENUM_VARIANTS[tag])):
                    d = tg.get(i, dflt)
                    ch.append(num(d) if d is not None else BOT)
                return T.discr_switch(x, tag, tuple(ch))
            vals = sorted(tg)
            cs, ch = [], []
            lo = NEG
            for c in vals:
                if c > lo:
                    cs.append((lo, c - 1))
                    ch.append(num(dflt) if dflt is not None else BOT)
                cs.append((c, c))
                ch.append(num(tg[c]))
                lo = c + 1
            cs.append((lo, POS))
            ch.append(num(dflt) if dflt is not None else BOT)
            return switch(x, "i", tuple(cs), tuple(ch))

        if v.k == "sw":
            memo = {}

            def go(x):
                if x is BOT:
                    return BOT
                if x.k != "sw":
                    return leaf(x)
                r = memo.get(x)
                if r is None:
                    r = T.build(x.a[0], x.a[1], x.a[2], tuple(go(c) for c in x.a[3]))
                    memo[x] = r
                return r

            tv = go(v)
        elif v is BOT:
            return []
        else:
            tv = leaf(v)
        res = []
        targets = []
        for x in T.leaves(tv):
            if x.a[0] not in targets:
                targets.append(x.a[0])
        targets.sort()
        live = []
        for x in targets:
            c = band(st.pc, cond_of(tv, lambda y: y.k == "int" and y.a[0] == x))
            if c is F:
                continue
            if len(targets) > 1 and st.ctx is not TR and band(st.ctx, c) is F:
                continue
            live.append((x, c))
        for i, (x, c) in enumerate(live):
            res.append((x, c, st.mem if i == len(live) - 1 else dict(st.mem)))
        return res

    # ------------------------------------------------------------ calls

    def do_call(self, fr, st, t, b):
        f = t["f"]
        args = [self.operand(fr, st, a) for a in t["args"]]
        fv = self.operand(fr, st, f)
        r = self.call(st, fv, args, fr.tyenv, t.get("atys"), t.get("dty"), (b,), t.get("at"))
        if st.pc is F or t.get("to") is None:
            return []
        self.store(fr, st, t["dest"], r)
        return [(t["to"], st.pc, st.mem)]

    def call(self, st, fv, args, tyenv=None, atys=None, dty=None, site=None, at=None):
        """call a function value"""
        tyenv = tyenv or {}
        fv = self.dd(st, fv)
        if fv.k == "sw":
            outs = []
            vals = []
            for x in T.leaves(fv):
                c = cond_of(fv, lambda y: y is x)
                if band(st.ctx, st.pc, c) is F:
                    continue
                s2 = State(c, dict(st.mem), band(st.ctx, st.pc))
                cell = ("ret", len(self.stack), site)
                r = self.call(s2, x, args, tyenv, atys, dty, (site, x.id if x.k != "fn" else x.a[0]), at)
                if s2.pc is F:
                    continue
                s2.mem[cell] = r
                outs.append((s2.pc, s2.mem))
                vals.append(cell)
            if not outs:
                st.pc = F
                return BOT
            pc, mem = self.join(outs)
            r = mem.pop(vals[0])
            st.pc = band(st.pc, pc)
            st.mem = mem
            return r
        if fv.k == "fn":
            d = fv.a[0]
            if isinstance(d, str):
                f = self.facts.fns.get(d)
                if f is None:
                    raise Unsupported("closure " + d)
                return self.exec_fn(f, [fv] + list(args), st, tyenv, (site, at and tuple(at)))
            info = self.fninfo[d]
            return self.call_item(st, info, args, tyenv, atys, dty, site, at)
        # opaque callable
        return app("call", fv, *[self.dd(st, a) for a in args])

    def subst_ty(self, i, tyenv):
        s = strip_lt(self.facts.ts(i))
        return tyenv.get(s, s)

    def call_item(self, st, k, args, tyenv, atys, dty, site, at):
        res = k.get("res")
        d = (res or {}).get("def") or k["def"]
        f = self.facts.fns.get(d)
        siteid = (site, k["def"])
        if res is None and k.get("trait"):
            selfs = self.subst_ty(k["self"], tyenv) if k.get("self") is not None else None
            g = self.facts.find_impl(k["trait"], k["method"], selfs)
            if g is not None:
                f = g
                d = g["id"]
            else:
                # default method of a local trait
                f = self.facts.fns.get(k["def"])
        if f is not None and f.get("body"):
            if f.get("kind") == "Closure" and k.get("method") in ("call", "call_mut", "call_once") and len(args) == 2:
                # a closure called through its variable gets its arguments as one tuple
                t = args[1] if args[1].k == "agg" else self.dd(st, args[1])
                if t.k == "agg" and t.a[0] == "tuple":
                    args = [args[0]] + list(t.a[2])
                elif f["body"]["argc"] != 2:
                    raise Unsupported("arguments of " + f["id"])
            op = self.opaque.get(f["id"])
            if op is not None:
                return op(self, st, args)
            env = {}
            if f.get("of_trait") or (k.get("trait") and not f.get("impl_trait")):
                env["Self"] = self.subst_ty(k["args"][0], tyenv) if k.get("args") else None
            gp = f.get("generics")
            if gp:
                for nme, a in zip(gp, k.get("args", ())):
                    env[nme] = self.subst_ty(a, tyenv)
            return self.exec_fn(f, args, st, env, siteid)
        if f is None or not f.get("body"):
            adt = self.facts.adts.get(d)
            if adt is not None and adt["kind"] == "struct" and adt["local"] and len(adt["variants"][0]["fields"]) == len(args):
                return agg(d, 0, list(args))
        key = callee_key(k)
        if self.extern is not None:
            r = self.extern(self, st, k, key, args, tyenv)
            if r is not None:
                return r
        m = self.models.get(key)
        if m is not None:
            c = Call(self, st, k, key, args, tyenv, atys, dty, siteid, at)
            r = m(c)
            if r is not None:
                return r
        return self.unknown_call(st, k, key, args, dty)

    def unknown_call(self, st, k, key, args, dty):
        self.unknown[key] = self.unknown.get(key, 0) + 1
        vals = [self.dd(st, a) for a in args]
        r = mk("app", "?" + key, tuple(vals))
        for i, a in enumerate(args):
            if a.k == "ref" or (a.k == "sw" and any(x.k == "ref" for x in T.leaves(a))):
                self.write_ref(st, a, mk("app", "?%s#%d" % (key, i), tuple(vals)))
            else:
                # references inside iterators, closures and tuples
                for j, x in enumerate(inner_refs(a)):
                    self.write_ref(st, x, mk("app", "?%s#%d.%d" % (key, i, j), tuple(vals)))
        if dty is not None and self.facts.types[dty]["k"] == "never":
            self.obligation("call:" + key, st, F, tuple(vals))
            return BOT
        return r

    # ------------------------------------------------------------ loops

    def diff(self, h, b, cell, path, key, phis):
        if h is b:
            return h
        if h.k == "phi" and h in phis:
            return h
        if b is BOT:
            return h
        tag = None
        if h.k == "agg" and b.k == "agg":
            if h.a[0] == b.a[0] and h.a[1] == b.a[1] and len(h.a[2]) == len(b.a[2]) and h.a[2]:
                tag, var = h.a[0], h.a[1]
        elif h.k == "agg" and h.a[2] and (T.STRUCT_ARITY.get(h.a[0]) == len(h.a[2]) or h.a[0] == "tuple"):
            tag, var = h.a[0], h.a[1]
        elif b.k == "agg" and b.a[2] and (T.STRUCT_ARITY.get(b.a[0]) == len(b.a[2]) or b.a[0] == "tuple"):
            tag, var = b.a[0], b.a[1]
        if tag is not None:
            n = T.STRUCT_ARITY.get(tag) or len((h if h.k == "agg" else b).a[2])
            enum = tag in T.ENUM_VARIANTS and tag not in T.STRUCT_ARITY
            out = []
            for i in range(n):
                if enum:
                    hi, bi = vfield(h, var, i), vfield(b, var, i)
                else:
                    hi, bi = field(h, i, tag), field(b, i, tag)
                out.append(self.diff(hi, bi, cell, path + ((tag, var, i, enum),), key, phis))
            return agg(tag, var, out)
        p = mk("phi", (key, cell, path))
        phis[p] = (cell, path)
        return p

    @staticmethod
    def getpath(v, path):
        for tag, var, i, enum in path:
            v = vfield(v, var, i) if enum else field(v, i, tag)
        return v

    def loop_solve(self, key, pc, mem, ctx, body, fnid):
        actx = band(ctx, pc)
        if actx is not TR:
            mem = {c: prune(actx, v) for c, v in mem.items()}
        phis = {}
        ev0, lp0 = len(self.events), len(self.loops)
        cur = dict(mem)
        for _ in range(12):
            del self.events[ev0:]
            del self.loops[lp0:]
            outs = body(State(TR, dict(cur), actx))
            backs = [(p, m) for l, p, m in outs if l == "back"]
            if not backs:
                break
            bpc, bmem = self.join(backs)
            n0 = len(phis)
            for c in list(cur):
                if c in bmem:
                    cur[c] = self.diff(cur[c], bmem[c], c, (), key, phis)
            if len(phis) == n0:
                break
        else:
            raise Unsupported("loop fixpoint in " + fnid)
        exits = [(l, p, m) for l, p, m in outs if l != "back"]
        if not backs or bpc is F:
            return [(l, band(pc, p), m) for l, p, m in exits]
        table = []
        for p, (c, path) in phis.items():
            v0 = self.getpath(mem[c], path)
            nx = self.getpath(bmem[c], path)
            table.append((p, v0, nx, c, path))
        rec = Loop()
        rec.fn = fnid
        rec.key = key
        rec.phis = table
        rec.cont = bpc
        rec.exits = exits
        rec.ctx = actx
        rec.mem0 = mem
        rec.ev = self.events[ev0:]
        self.loops.append(rec)
        from loops import summarise

        return summarise(self, rec, pc, ev0)

    # ------------------------------------------------------------ roots

    def run(self, fn, args, tyenv=None, mem=None, ctx=TR):
        """analyse one function for all inputs: (value, state)"""
        f = self.facts.fns[fn] if isinstance(fn, str) else fn
        st = State(TR, dict(mem or {}), ctx)
        r = self.exec_fn(f, args, st, tyenv or {}, "root")
        return r, st


def inner_refs(t):
    out, seen = [], set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.k == "ref":
            out.append(x)
        elif x.k in ("agg", "fn", "sw", "seq"):
            for y in T.args_terms(x):
                go(y)

    go(t)
    return out


class Call(object):
    """arguments of a library call, given to its model"""

    __slots__ = ("I", "st", "k", "key", "args", "tyenv", "atys", "dty", "site", "at")

    def __init__(self, I, st, k, key, args, tyenv, atys, dty, site, at):
        self.I, self.st, self.k, self.key, self.args = I, st, k, key, args
        self.tyenv, self.atys, self.dty, self.site, self.at = tyenv, atys, dty, site, at

    def v(self, i):
        return self.I.dd(self.st, self.args[i])

    def d1(self, i):
        return self.I.deref(self.st, self.args[i])

    def targ(self, i):
        a = self.k.get("args", ())
        return a[i] if i < len(a) else None

    def selfty(self):
        return self.k.get("self")

    def callf(self, f, *args):
        return self.I.call(self.st, f, list(args), self.tyenv, None, None, (self.site, "cb"), self.at)

    def panic_unless(self, kind, okc, data):
        self.I.obligation(kind, self.st, okc, data, self.at)
