"""C34: writing, converting, comparing and querying never panic."""
from rules.common import *  # noqa
from rules import wrapping as WR
from rules import powrite as PW

RULE = {
    "C34": "every failing operation (slice bounds, character boundaries, unwraps, index bounds, subtraction below zero, divisions) in the functions reached from the public ones that do not read or save is shown unreachable; the line-breaking library reports ascending positions between characters; lengths and counts fit a machine word",
}

isapp = Q.isapp
TRIMS = ("trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches")


class Facts(object):
    """what is known about the values named in a condition"""

    def __init__(self, t):
        self.t = t
        self.memo = {}

    def listed(self, P):
        """P holds positions of the text in ascending order"""
        r = self.memo.get(P)
        if r is None:
            r = self.memo[P] = WR.subsequence(P, self.t) is not None
        return r

    def position(self, x):
        """a position between two characters of the text"""
        if x.k == "elem":
            return self.listed(x.a[0])
        if isapp(x, "nth"):
            return self.listed(x.a[1][0])
        if x.k == "fld":
            e = x
            while e.k == "fld":
                e = e.a[0]
            if e.k == "elem" or isapp(e, "nth"):
                S = e.a[0] if e.k == "elem" else e.a[1][0]
                r = WR.positions(S, self.t)
                return r is not None and r[0](e) is x
        return False

    def atleast(self, c, d):
        """lower bound of c + sum(k*x)"""
        v = T.mklin(c, d)
        lo = T.lowerl(v)
        if lo > T.NEG:
            return lo
        for x, k in d.items():
            if k >= 0:
                continue
            # x is at most y
            for y, off in self.above(x):
                d2 = dict(d)
                del d2[x]
                c0, d0 = T._lp(y)
                for z, m in d0.items():
                    d2[z] = d2.get(z, 0) + k * m
                d2 = {z: m for z, m in d2.items() if m}
                lo = self.atleast(c + k * (c0 + off), d2) if d2 else c + k * (c0 + off)
                if lo > T.NEG:
                    return lo
        return self.folds(c, d)

    def above(self, x):
        """(y, n) with x <= y + n"""
        if self.position(x):
            if isapp(x, "nth"):
                P, i = x.a[1]
                # an earlier position of the same list
                n, ix = T._lp(i)
                for x0, k in ix.items():
                    if n < 0 and len(ix) == 1 and k == 1 and x0.k == "idx" and x0.a[0].k == "elem" and x0.a[0].a[0] is P:
                        yield x0.a[0], 0
            yield slen(self.t), 0
        if x.k == "len" or isapp(x, "len"):
            s = x.a[0] if x.k == "len" else x.a[1][0]
            if s.k == "app" and s.a[0] in TRIMS:
                yield slen(s.a[1][0]), 0

    def folds(self, c, d):
        """the difference of two accumulators of the same loop, by induction"""
        ps = [x for x, k in d.items() if k == 1 and isapp(x, "prefold")]
        qs = [x for x, k in d.items() if k == -1 and isapp(x, "prefold")]
        rest = {x: k for x, k in d.items() if x not in ps and x not in qs}
        if len(ps) != 1 or len(qs) != 1:
            return T.NEG
        r0 = T.lowerl(T.mklin(c, rest)) if rest else c
        if r0 < 0:
            return T.NEG
        p, q = ps[0], qs[0]
        S, n, V1, N1, d1, i1 = p.a[1]
        if S is not q.a[1][0] or i1 is not q.a[1][5] or d1 is not q.a[1][4] or n is not q.a[1][1]:
            return T.NEG
        V2, N2 = q.a[1][2], q.a[1][3]
        acc = lambda j: mk("sym", "§acc%d.%d" % (d1.a[0], j))
        if len(N1.a[2]) != 1:
            return T.NEG
        for k in range(1, len(N2.a[2])):
            if T.replace(N1.a[2][0], {acc(0): acc(k)}) is not N2.a[2][k] or V1.a[2][0] is not V2.a[2][k]:
                continue
            if self.over(sub(V2.a[2][k], V2.a[2][0]), None) and all(self.over(sub(a, b), sub(acc(k), acc(0))) for a in T.leaves(N2.a[2][k]) for b in T.leaves(N2.a[2][0])):
                return r0
        return T.NEG

    def over(self, x, given):
        """x is not negative, given another such difference"""
        if T.lowerl(x) >= 0:
            return True
        return given is not None and T.lowerl(sub(x, given)) >= 0

    def possible(self, atom, kind, case):
        if kind == "i":
            c, d = T._lp(atom)
            if case[1] < T.POS and self.atleast(c, d) > case[1]:
                return False
            if case[0] > T.NEG and self.atleast(-c, {x: -k for x, k in d.items()}) > -case[0]:
                return False
        if kind == "e" and case == 0 and isapp(atom, "boundary") and atom.a[1][0] is self.t:
            x = atom.a[1][1]
            if self.position(x) or x is num(0) or x is slen(self.t):
                return False
        return True


def direct(x):
    """elements of a list made one for one from another, in terms of the other"""
    def f(v):
        if v.k == "elem" and v.a[0].k == "seq" and len(v.a[0].a[0]) == 1 and v.a[0].a[0][0][0] == "F":
            _, S, n, body = v.a[0].a[0][0]
            its = T.items(body) if body.k == "seq" else ()
            if len(its) == 1 and its[0][0] == "E":
                e = elem(S, v.a[1])
                return T.replace(its[0][1], {elem(S, n): e, idx(elem(S, n)): idx(e)})
        if v.k == "idx" and v.a[0].k == "elem" and v.a[0].a[0].k == "seq":
            S0 = v.a[0].a[0]
            if len(S0.a[0]) == 1 and S0.a[0][0][0] == "F":
                _, S, n, body = S0.a[0][0]
                its = T.items(body) if body.k == "seq" else ()
                if len(its) == 1 and its[0][0] == "E":
                    return idx(elem(S, v.a[0].a[1]))
        return None

    return T.rewrite(x, f)


def remaining(pc, t):
    """the condition without the cases that cannot be"""
    K = Facts(t)
    memo = {}

    def go(v):
        if v.k != "sw":
            return v
        if v in memo:
            return memo[v]
        atom, kind, cases, kids = v.a
        out = []
        for i, (c, x) in enumerate(zip(cases, kids)):
            out.append(go(x) if K.possible(atom, kind, i if kind == "e" else c) else F)
        r = memo[v] = F if all(x is F for x in out) else T.build(atom, kind, cases, out)
        return r

    return bnorm(go(bval(pc)))


def panics(s):
    for e in s.events:
        if e.kind.startswith("panic:"):
            p = Q.consistent(e.pc)
            if p is not F:
                yield e, p


def closed(p):
    """the condition for some element of each list it is about"""
    v = bval(p)
    while True:
        free = [x for x in T.subterms(v) if x.k == "elem" and x.a[1] < 0]
        if not free:
            return v
        x = next(x for x in free if not any(y is not x and T.occurs(y.a[0], x) for y in free))
        S = x.a[0]
        k = Q.bound_level(S, v)
        e = elem(S, k)
        v = bval(bnorm(Q.is_some(app("find", S, num(k), T.replace(v, {x: e, idx(x): idx(e)})))))


def site(e):
    return "%s at %s:%s" % (e.kind[6:].replace(":", " "), e.site[1][0], e.site[1][1])


def wrapper(c):
    lib = c.lib
    fn = c.need(lib.wrap, "wrapping function")
    b = lib.facts.fns[fn]["body"]
    ix = 0 if lib.facts.types[b["locals"][1]]["k"] != "int" else 1
    t, w = sym("text"), sym("width")
    s = lib.summary(fn, args=[t, w] if ix == 0 else [w, t], inline=(fn,))
    if s.I.unknown:
        c.record("wrapping: no failing operation", fn, "undecided", "calls not understood: %s" % sorted(map(str, s.I.unknown))[:3])
    for e, p in panics(s):
        name = "wrapping: no %s" % site(e)
        if remaining(direct(bval(p)), t) is F:
            c.record(name, fn, "proved", "positions of line breaks, by induction over the loop")
        else:
            c.never(name, fn, closed(p), {t: WR.gtext, w: lambda g: g.r.choice((0, 1, 2, 3, 5, 8, 20))}, funs=lambda val, g: WR.breaks(g), n=4000)


def reads(lib, fn):
    """reads or saves a file"""
    return any(lib.reaches(fn, x) for x in ("fs::File", "fs::OpenOptions", "std::fs::", "Path::is_file", "Path::exists"))


def c34(c):
    lib = c.lib
    c.part("wrapping", wrapper, c)
    seen = 0
    for fn, f in sorted(lib.facts.fns.items()):
        if not f.get("body") or not f.get("reachable") or f.get("expanded") or f.get("static") or "{closure" in fn:
            continue
        if fn in (lib.wrap, lib.esc, lib.unesc):
            continue
        if reads(lib, fn) or opens_path(lib, f):
            continue
        seen += 1
        c.part(fn, one_fn, c, fn)
    for fn in (lib.esc, lib.unesc):
        if fn:
            c.part(fn, one_fn, c, fn, (fn,))


def opens_path(lib, f):
    """made from a path, which has to be text"""
    return any("Path" in lib.facts.types[t]["s"] for t in f["body"]["locals"][1 : 1 + f["body"]["argc"]])


ODD = ("é", "¡hola mundo!", "日本語 テキスト", "x", "")


def likely(lib, fn):
    """values for the inputs of a function: entries and files as programs make them"""
    f = lib.facts.fns[fn]["body"]
    args, gens = [], {}
    for i in range(f["argc"]):
        ty = f["locals"][1 + i]
        s = lib.facts.types[ty]["s"].replace("&mut ", "").replace("&", "").strip()
        x = sym("arg%d" % i)
        args.append(x)
        last = s.split("<")[0].split("::")[-1]
        if last == "Formatter":
            gens[x] = lambda g: ""
        elif last in ("POEntry", "MOEntry"):
            gens[x] = either(ty, PW.gentry(lib, last, 0.2, 0.2))
        elif last in ("POFile", "MOFile"):
            gens[x] = either(ty, headed(lib, last, PW.gfile(lib, last)))
        elif s == "usize":
            gens[x] = PW.gwidth
        else:
            gens[x] = (lambda ty: lambda g: g.ty(ty))(ty)
    return args, gens


def either(ty, make):
    return lambda g: make(g) if g.r.random() < 0.7 else g.ty(ty)


def headed(lib, ty, make):
    k = lib.facts.fields(lib.adt(ty))
    k = k.index("header") if "header" in k else None

    def go(g):
        v = list(make(g))
        if k is not None and g.r.random() < 0.4:
            v[k] = ev.some("\n".join(g.r.choice(ODD) for _ in range(g.r.choice((1, 2, 3)))))
        return tuple(v)

    return go


def one_fn(c, fn, inline=()):
    lib = c.lib
    s = lib.summary(fn, inline=inline)
    name = "no failing operation: " + fn
    ps = list(panics(s))
    if s.I.unknown:
        c.record(name, fn, "undecided", "calls not understood: %s" % sorted(map(str, s.I.unknown))[:3])
    elif not ps:
        c.record(name, fn, "proved")
        return
    if not ps:
        return
    args, gens = likely(lib, fn)
    if len(args) == len(s.args):
        s = lib.summary(fn, args=args, inline=inline)
        ps = list(panics(s))
    else:
        gens = s.inputs
    for e, p in ps:
        c.never("%s: no %s" % (fn, site(e)), fn, closed(p), gens)
