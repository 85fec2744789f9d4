"""C25: wrapping keeps the text and escapes whole; files use their width."""
import ev
from rules.common import *  # noqa
from rules import powrite as W

# ------------------------------------------------------------------ the wrapping function


def pieces(t, P):
    """consecutive parts of t cut at the positions of P"""
    def part(e):
        before = ite(icmp("eq", idx(e), num(0)), num(0), app("nth", P, sub(idx(e), num(1))))
        return one(app("sub", t, before, e))

    tail = app("sub", t, ite(empty(P), num(0), app("nth", P, sub(slen(P), num(1)))), slen(t))
    return cat(over(P, part), one(tail))


def inside_escape(t, b):
    """an odd number of backslashes right before b, and something after"""
    run = sub(b, slen(app("trim_end_matches", app("sub", t, num(0), b), lit("\\"))))
    return band(icmp("eq", app("rem", run, num(2)), num(1)), icmp("lt", b, slen(t)))


def positions(S, t):
    """S as a list made of the line breaks of t in order:
    function from an element of S to its break position, and the condition under
    which a break is kept; None when S is something else"""
    brk = mk("app", "linebreaks", (t,))
    if S is brk:
        return lambda e: field(e, 0, "tuple"), lambda b: TR
    if S.k != "seq" or len(S.a[0]) != 1 or S.a[0][0][0] != "F":
        return None
    _, S2, n, body = S.a[0][0]
    r = positions(S2, t)
    if r is None:
        return None
    pos, kept = r
    e = elem(S2, n)
    vals = {}
    keep = F
    for ctx, l in cases(body):
        if l is EMPTY:
            continue
        its = T.items(l)
        if len(its) != 1 or its[0][0] != "E":
            return None
        vals[its[0][1]] = 1
        keep = bor(keep, ctx)
    if len(vals) != 1:
        return None
    v = list(vals)[0]
    # the break itself, or a pair holding it
    if v is e:
        f = pos
    elif v.k == "agg" and v.a[0] == "tuple":
        at = [i for i, x in enumerate(v.a[2]) if x is e or x is pos(e)]
        if not at:
            return None
        i = at[0]
        f = (lambda y: pos(field(y, i, "tuple"))) if v.a[2][i] is e else (lambda y: field(y, i, "tuple"))
    elif v is pos(e):
        f = lambda y: y
    else:
        return None
    cond = lambda b: band(kept(b), T.replace(bval(keep), {pos(e): b}) if keep is not TR else TR)
    return f, cond


def cases(v):
    """(condition, leaf) of a decision"""
    if v.k != "sw":
        return [(TR, v)]
    out = []
    for l in T.leaves(v):
        out.append((where(v, l), l))
    return out


def where(v, l):
    """condition under which the decision v ends in l"""
    if v is l:
        return TR
    if v.k != "sw":
        return F
    atom, kind, cs, ks = v.a
    return bnorm(T.switch(atom, kind, cs, tuple(bval(where(k, l)) for k in ks)))


def subsequence(P, t):
    """P lists some of the line breaks of t, each at most once and in order;
    returns the condition on the listed breaks"""
    r = positions(P, t)
    if r is not None:
        b = sym("§b")
        return r[1](b) if r[0](b) is b else None
    if P.k != "app" or P.a[0] != "fold":
        return None
    S, k, V, N, d = P.a[1]
    r = positions(S, t)
    if r is None or V.a[2][0] is not EMPTY:
        return None
    pos, cond = r
    acc = mk("sym", "§acc%d.0" % d.a[0])
    e = elem(S, k.a[0])
    new = one(pos(e))
    its = list(T.items(N.a[2][0]))
    if N.a[2][0].k == "sw":
        for l in T.leaves(N.a[2][0]):
            if l is not acc and l is not cat(acc, new):
                return None
        return cond(sym("§b"))
    if its[0] != ("S", acc) and its[0][1] is not acc:
        return None
    if len(its) == 1:
        return cond(sym("§b"))
    if len(its) != 2:
        return None
    v = its[1][1] if its[1][0] == "A" else seq([its[1]])
    for l in T.leaves(v):
        if l is not EMPTY and l is not new:
            return None
    return cond(sym("§b"))


def gtext(g):
    r = g.r
    n = r.choice((0, 1, 2, 3, 5, 9))
    out = []
    for _ in range(n):
        out.append(r.choice(("a", "bc", "def", "\\n", "\\\\", '\\"', "\\t", "é", "日本", " ", "long-word", "\\\\\\n", "\\\\\\\\", "x" * 12, "-")))
        if r.random() < 0.6:
            out.append(" ")
    return "".join(out)


def breaks(g):
    """any break opportunities a library may report: boundaries between
    characters in order, the end last"""
    seed = g.r.random()

    def f(t):
        import random

        s = ev.text(t)
        r = random.Random("%s:%s" % (seed, s))
        p = r.choice((0.2, 0.5, 0.9, 1.0))
        out = []
        at = 0
        for i, ch in enumerate(s):
            at += len(ch.encode())
            if i == len(s) - 1:
                out.append((at, ev.En(0, [])))
            elif r.random() < p:
                out.append((at, ev.En(1, [])))
        return out

    return {"linebreaks": f}


def boundaries(c, s):
    """no cut inside an escape; the end of the text is no cut"""
    ps = [ev.text(x) for x in c]
    t = ev.text(s)
    if "".join(ps) != t:
        return False
    at = 0
    for p in ps[:-1]:
        at += len(p)
        if 0 < at < len(t) and (at - len(t[:at].rstrip("\\"))) % 2:
            return False
    return True


def wrapper(c):
    lib = c.lib
    fn = c.need(lib.wrap, "wrapping function")
    b = lib.facts.fns[fn]["body"]
    ix = 0 if lib.facts.types[b["locals"][1]]["k"] != "int" else 1
    t, w = sym("text"), sym("width")
    s = lib.summary(fn, args=[t, w] if ix == 0 else [w, t], inline=(fn,))
    its = T.items(s.ret) if s.ret.k == "seq" else ()
    done = False
    P = next((it[1] for it in its if it[0] == "F"), None)
    if P is not None and s.ret is pieces(t, P):
        cond = subsequence(P, t)
        if cond is not None:
            c.record("the pieces are consecutive and together the text", fn, "proved", "cut at a subsequence of the line breaks")
            x = sym("§b")
            if bnorm(band(cond, inside_escape(t, x))) is F:
                c.record("no cut falls inside an escape", fn, "proved")
                done = True
    if not done:
        c.same("wrapping keeps the text and its escapes", fn, s.ret, t, {t: gtext, w: lambda g: g.r.choice((0, 1, 2, 3, 5, 8, 20))}, agree=boundaries, funs=lambda val, g: breaks(g), n=4000)


# ------------------------------------------------------------------ its use


def values_ok(c, s):
    a, b = W.read(c), W.read(s)
    if b[2]:
        return True
    f = lambda x: [(m, k) for m, k, _, _ in x[0]]
    if f(a) != f(b):
        return True
    for x, y in zip(a[0], b[0]):
        if "".join(x[2]) != "".join(y[2]):
            return False
        if any((len(p) - len(p.rstrip("\\"))) % 2 for p in x[2]):
            return False
    return True


def width_ok(c, s):
    """as many pieces as the width asks for, give or take the last word"""
    a, b = W.read(c), W.read(s)
    if [(m, k) for m, k, _, _ in a[0]] != [(m, k) for m, k, _, _ in b[0]]:
        return True
    for x, y in zip(a[0], b[0]):
        n, m = len(x[2]), len(y[2])
        if m > 3 and n == 1 or m == 1 and n > 3:
            return False
    return True


def c25(c):
    c.part("wrapping", wrapper, c)
    W.entries(c, "wrapped values whole", values_ok, special=0.4)
    c.part("width", W.file_texts, c, width_ok, "entries wrapped at the width of the file")
    c.part("options", options, c)


def options(c):
    """the width given when a file is read is the width of the file"""
    lib = c.lib
    o = c.need(lib.adt("FileOptions"), "FileOptions")
    n = 0
    for i, f in sorted(lib.facts.fns.items()):
        if not f.get("body") or f["name"] != "from" or not f.get("impl_trait") or last(f["impl_trait"]) != "From":
            continue
        if norm(lib.facts.ts(f["impl_self"])) != o:
            continue
        ty = lib.facts.types[f["body"]["locals"][1]]
        if ty["k"] == "ref":
            ty = lib.facts.types[ty["to"]]
        x = sym("from%d" % n)
        n += 1
        s = lib.summary(i, args=[x])
        w = lib.f(s.ret, "FileOptions", "wrapwidth")
        if ty["k"] == "tuple":
            js = [j for j, a in enumerate(ty["args"]) if lib.facts.types[a]["s"] == "usize"]
            spec = field(x, js[0], "tuple") if js else num(78)
        elif ty.get("adt") == o:
            spec = lib.f(x, "FileOptions", "wrapwidth")
        else:
            spec = num(78)
        c.same("options made from %s carry the width" % norm(lib.facts.ts(f["body"]["locals"][1])), i, w, spec, s.inputs)
