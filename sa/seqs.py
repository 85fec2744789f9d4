"""Algebra of strings, lists, maps and readers.

`app` terms are built through these rules, so equal library expressions
written in different ways (find/contains/split_once, slicing/strip_prefix,
filter+next/find, ...) end up as the same term.
"""
import terms as T
from fvs import bound_level
from terms import (
    BOT, F, TR, NONE, EMPTY, OPT, RES, ORDT, ORD, NEG, POS, T as Term, mk, num, agg, tup,
    some, ok, err, sym, lift, switch, discr_switch, cond_of, leaves, band, bor, bnot, bnorm,
    bval, ite, add, sub, neg, mul, icmp, lit, items, seq, cat, one, ch, as_lit, ulen, slen,
    item_len, elem, idx, each, field, vfield, replace, occurs, subterms, merge,
)

WS_ASCII = "\t\n\x0c\r "
WS = "\t\n\x0b\x0c\r \x85\xa0                　"

# positions whose decision diagrams may be pulled out of an application
NOLIFT = {
    "find": (0,), "sum": (0,), "presum": (0,), "pre": (0,), "fold": (), "prefold": (),
    "sort": (0,), "dedupby": (0,), "anybefore": (0,), "iolines": (0,), "loopexit": (), "retain": (0,),
    "fmtargs": (), "fmtarg": (), "escape": (), "unescape": (), "wrap": (), "width": (),
    "mapfold": (), "lines": (0,), "map_insert": (0, 1), "lastof": (0,), "remain": (),
    "while": (), "wany": (),
}
BOUND = {"find": (2,), "sum": (2,), "presum": (2,), "pre": (2,), "anybefore": (2,)}
LIMIT = 24
HOOKS = {}


def hook(f):
    HOOKS[f.__name__.rstrip("_")] = f
    return f


_appm = {}


def app_hook(name, args):
    key = (name, args)
    r = _appm.get(key)
    if r is not None:
        return r
    r = _app(name, args)
    _appm[key] = r
    return r


def _app(name, args):
    for a in args:
        if a is BOT:
            return BOT
    pos = NOLIFT.get(name)
    sw = [i for i, a in enumerate(args) if a.k == "sw" and (pos is None or i in pos)]
    if sw:
        n = 1
        for i in sw:
            n *= T.nleaves(args[i], LIMIT + 1)
        if n <= LIMIT:
            def f(*xs):
                l = list(args)
                for i, x in zip(sw, xs):
                    l[i] = x
                if name in BOUND and l[0] is not args[0]:
                    # what is bound ranges over the list of this case
                    k = args[1].a[0]
                    m = {elem(args[0], k): elem(l[0], k)}
                    for i in BOUND[name]:
                        l[i] = replace(l[i], m)
                return app_hook(name, tuple(l))
            return lift(f, *[args[i] for i in sw])
    h = HOOKS.get(name)
    if h is not None:
        r = h(*args)
        if r is not None:
            return r
    return mk("app", name, tuple(args))


T.APP_HOOK[0] = app_hook
app = T.app


def isapp(t, name):
    return t.k == "app" and t.a[0] == name


def opt_atom(t):
    T.ENUM_OF.setdefault(t, OPT)
    return t


def is_some(t):
    return bval(discr_switch(t, OPT, (F, TR)))


def is_ok(t):
    return bval(discr_switch(t, RES, (TR, F)))


# ---------------------------------------------------------------- lists


@hook
def len_(X):
    return slen(X)


def one_elem(body):
    """value of a body that yields exactly one element"""
    if body.k == "seq" and len(body.a[0]) == 1 and body.a[0][0][0] in ("E", "C"):
        return body.a[0][0][1]
    return None


@hook
def nth(X, i):
    if X.k == "seq":
        its = X.a[0]
        if not its:
            return BOT
        r = with_alts("nth", X, i)
        if r is not None:
            return r
        if len(its) == 1 and its[0][0] == "F":
            _, S, n, b = its[0]
            v = one_elem(b)
            if v is not None:
                e = elem(S, n)
                return replace(v, {e: app("nth", S, i), idx(e): i})
        off = num(0)
        for it in its:
            d = sub(i, off)
            if it[0] in ("E",):
                if d is F:
                    return it[1]
                off = add(off, TR)
                continue
            if it[0] in ("L",):
                # bytes of a literal
                b = it[1].encode("utf-8", "surrogatepass")
                if d.k == "int" and 0 <= d.a[0] < len(b):
                    return num(b[d.a[0]])
                off = add(off, num(len(b)))
                continue
            L = item_len(it)
            r = sub(d, L)
            if r.k == "int" and r.a[0] >= 0:
                off = add(off, L)
                continue
            if d.k == "int" and it[0] == "S" and (T.lower(L) > d.a[0] >= 0 or d.a[0] >= 0 and it is its[-1]):
                return app("nth", it[1], d)
            return None
        d = sub(i, slen(X))
        if d.k == "int" and d.a[0] >= 0:
            return BOT
        return None
    if i.k == "idx" and i.a[0].k == "elem" and i.a[0].a[0] is X:
        return i.a[0]
    if isapp(X, "skip"):
        return app("nth", X.a[1][0], add(i, X.a[1][1]))
    if isapp(X, "take"):
        return app("nth", X.a[1][0], i)
    if isapp(X, "range"):
        return add(X.a[1][0], i)
    if isapp(X, "rev"):
        Y = X.a[1][0]
        return app("nth", Y, sub(sub(slen(Y), TR), i))
    if isapp(X, "set"):
        Y, j, v = X.a[1]
        c = icmp("eq", i, j)
        if c in (TR, F):
            return v if c is TR else app("nth", Y, i)
        return ite(c, v, app("nth", Y, i))
    if isapp(X, "pre"):
        S, n, B, e = X.a[1]
        v = one_elem(B)
        if v is not None:
            e2 = elem(S, n.a[0])
            return replace(v, {e2: app("nth", S, i), idx(e2): i})
    if isapp(X, "split") and i.k == "int" and 0 <= i.a[0] <= 3:
        s, p = X.a[1]
        so = split_once_(s, p)
        if i.a[0] == 0:
            return bind_so(so, lambda a, b: a, s)
        return bind_so(so, lambda a, b: app("nth", app("split", b, p), num(i.a[0] - 1)), BOT)
    return None


def const_k(k):
    return k.a[0] if k.k == "int" else None


@hook
def skip(X, k):
    if k is F:
        return X
    if X.k == "seq":
        its = list(X.a[0])
        kk = k
        while its:
            it = its[0]
            if kk is F:
                return seq(its)
            if it[0] == "E":
                if T.lower(kk) < 1 and not (kk.k == "int"):
                    break
                kk = sub(kk, TR)
                its.pop(0)
                continue
            if it[0] == "L":
                return None
            L = item_len(it)
            r = sub(kk, L)
            if (r.k == "int" and r.a[0] >= 0):
                kk = r
                its.pop(0)
                continue
            break
        if not its:
            return EMPTY
        if len(its) == 1 and its[0][0] == "S":
            return app("skip", its[0][1], kk)
        if len(its) == 1 and its[0][0] == "F":
            _, S, n, b = its[0]
            if one_elem(b) is not None:
                S2 = app("skip", S, kk)
                e = elem(S, n)
                e2 = elem(S2, n)
                if S2.k == "seq" or S2.k == "sw":
                    return None
                return each(S2, n, replace(b, {e: e2, idx(e): add(idx(e2), kk)}))
        if kk is not k:
            return app("skip", seq(its), kk)
        return None
    if isapp(X, "skip"):
        return app("skip", X.a[1][0], add(X.a[1][1], k))
    if isapp(X, "take"):
        return app("take", app("skip", X.a[1][0], k), ssub(X.a[1][1], k))
    if isapp(X, "range"):
        a, b = X.a[1]
        return app("range", add(a, k), b)
    d = sub(k, slen(X))
    if d.k == "int" and d.a[0] >= 0:
        return EMPTY
    if isapp(X, "split") and k.k == "int" and k.a[0] <= 3:
        s, p = X.a[1]
        so = split_once_(s, p)
        return bind_so(so, lambda a, b: app("skip", app("split", b, p), num(k.a[0] - 1)), EMPTY)
    return None


def ssub(a, b):
    """saturating subtraction"""
    return ite(icmp("lt", a, b), num(0), sub(a, b))


@hook
def take(X, k):
    if k is F:
        return EMPTY
    if X.k == "seq":
        its = list(X.a[0])
        out = []
        kk = k
        while its:
            if kk is F:
                return seq(out)
            it = its[0]
            if it[0] == "E":
                if kk.k != "int" and T.lower(kk) < 1:
                    break
                kk = sub(kk, TR)
                out.append(its.pop(0))
                continue
            if it[0] == "L":
                return None
            r = sub(kk, item_len(it))
            if r.k == "int" and r.a[0] >= 0:
                kk = r
                out.append(its.pop(0))
                continue
            break
        if not its:
            return X
        if out:
            return cat(seq(out), app("take", seq(its), kk))
        if len(its) == 1 and its[0][0] == "F":
            _, S, n, b = its[0]
            if one_elem(b) is not None:
                S2 = app("take", S, kk)
                if S2.k in ("seq", "sw"):
                    return None
                e, e2 = elem(S, n), elem(S2, n)
                return each(S2, n, replace(b, {e: e2}))
        return None
    if isapp(X, "take"):
        return app("take", X.a[1][0], imin(X.a[1][1], k))
    d = sub(k, slen(X))
    if d.k == "int" and d.a[0] >= 0:
        return X
    return None


def imin(a, b):
    return ite(icmp("le", a, b), a, b)


def imax(a, b):
    return ite(icmp("ge", a, b), a, b)


@hook
def rev(X):
    if X.k == "seq" and all(i[0] == "E" for i in X.a[0]):
        return seq(X.a[0][::-1])
    if isapp(X, "rev"):
        return X.a[1][0]
    if X.k == "seq" and len(X.a[0]) == 1 and X.a[0][0][0] == "F":
        _, S, n, b = X.a[0][0]
        if one_elem(b) is not None:
            S2 = mk("app", "rev", (S,))
            e, e2 = elem(S, n), elem(S2, n)
            return each(S2, n, replace(b, {e: e2, idx(e): sub(sub(slen(S), TR), idx(e2))}))
    return None


@hook
def range_(a, b):
    d = sub(b, a)
    if d.k == "int" and d.a[0] <= 0:
        return EMPTY
    if d.k == "int" and a.k == "int" and d.a[0] <= 32:
        return seq([("E", num(a.a[0] + i)) for i in range(d.a[0])])
    return None


@hook
def set_(X, i, v):
    if X.k == "seq" and all(it[0] == "E" for it in X.a[0]) and i.k == "int":
        its = list(X.a[0])
        if 0 <= i.a[0] < len(its):
            its[i.a[0]] = ("E", v)
            return seq(its)
        return BOT
    if X.k == "seq":
        # position inside a known tail / head element
        off = num(0)
        its = list(X.a[0])
        for j, it in enumerate(its):
            d = sub(i, off)
            if it[0] == "E":
                if d is F:
                    its[j] = ("E", v)
                    return seq(its)
                off = add(off, TR)
                continue
            r = sub(d, item_len(it))
            if r.k == "int" and r.a[0] >= 0:
                off = add(off, item_len(it))
                continue
            break
    if v is app("nth", X, i):
        return X
    if isapp(X, "set") and X.a[1][1] is i:
        return app("set", X.a[1][0], i, v)
    return None


@hook
def pre(S, n, B, i):
    """concatenation of B over the first i elements"""
    if B is EMPTY:
        return EMPTY
    e2 = elem(S, n.a[0])
    if i is F:
        return EMPTY
    if one_elem(B) is e2:
        return app("take", S, i)
    if i.k == "int" and i.a[0] <= 4:
        out = []
        for j in range(i.a[0]):
            out.extend(items(replace(B, {e2: app("nth", S, num(j)), idx(e2): num(j)})))
        return seq(out)
    return None


@hook
def presum(S, n, t, i):
    if t.k == "int":
        return mul(t, i)
    if i is F:
        return F
    return None


@hook
def sum_(S, n, t):
    if S is EMPTY:
        return F
    if t.k == "int":
        return mul(t, slen(S))
    e = elem(S, n.a[0])
    if S.k == "seq":
        its = S.a[0]
        if len(its) == 1 and its[0][0] == "F":
            _, s2, m, b2 = its[0]
            v = one_elem(b2)
            if v is not None:
                return app("sum", s2, num(m), replace(t, {e: v, idx(e): idx(elem(s2, m))}))
        if not occurs(t, idx(e)):
            r = F
            for it in its:
                if it[0] in ("E", "C"):
                    r = add(r, replace(t, {e: it[1]}))
                elif it[0] == "S":
                    r = add(r, app("sum", it[1], n, replace(t, {e: elem(it[1], n.a[0])})))
                elif it[0] == "F":
                    _, s2, m, b2 = it
                    inner = lift(lambda s: app("sum", s, n, replace(t, {e: elem(s, n.a[0])})), b2)
                    r = add(r, app("sum", s2, num(m), inner))
                else:
                    return None
            return r
    if t.k == "lin":
        r = mul(num(t.a[0]), slen(S))
        for x, k in t.a[1]:
            r = add(r, mul(num(k), app("sum", S, n, x)))
        return r
    if t.k == "sw" or not occurs(t, e):
        if not occurs(t, e):
            return app("mul", t, slen(S)) if t.k != "int" else None
    return None


def sumof(S, n, t):
    return app("sum", S, num(n), t)


T.sumof = sumof


@hook
def read_ok(s, p, n):
    if s is EMPTY and n.k == "int" and n.a[0] > 0:
        return F
    return None


@hook
def find(S, n, C):
    """first element of S satisfying C"""
    return find_as(S, n, C, lambda x, i: x)


def find_pair(S, n, C):
    """first element of S satisfying C with its index"""
    if S.k == "sw":
        k = n.a[0]
        return lift(lambda s: find_pair(s, n, replace(C, {elem(S, k): elem(s, k)}) if s is not S else C), S) if T.nleaves(S, LIMIT + 1) <= LIMIT else find_as(S, n, C, tup)
    return find_as(S, n, C, tup)


def find_as(S, n, C, make):
    """Some(make(element, index)) of the first element satisfying C"""
    if C is F or S is EMPTY:
        return NONE
    e = elem(S, n.a[0])
    ie = idx(e)
    if C is TR:
        return ite(icmp("gt", slen(S), num(0)), some(make(app("nth", S, num(0)), num(0))), NONE)
    if S.k == "seq":
        its = S.a[0]
        if all(it[0] == "E" for it in its):
            r = NONE
            for j in range(len(its) - 1, -1, -1):
                c = replace(C, {e: its[j][1], ie: num(j)})
                r = ite(c, some(make(its[j][1], num(j))), r)
            return r
        if len(its) == 1 and its[0][0] == "F":
            _, s2, m, b2 = its[0]
            ls = leaves(b2)
            if all(l is EMPTY or one_elem(l) is not None for l in ls):
                filt = any(l is EMPTY for l in ls)
                if not (filt and occurs(C, ie)):
                    e2 = elem(s2, m)

                    def f(l):
                        if l is EMPTY:
                            return F
                        return replace(C, {e: one_elem(l), ie: idx(e2)})

                    c2 = bnorm(lift_bool(f, b2))
                    r = find_pair(s2, num(m), bval(c2))
                    val = lift(lambda l: one_elem(l) if l is not EMPTY else BOT, b2)
                    val = T.under(c2, val)

                    def g(x):
                        i = field(x, 1, "tuple")
                        if filt:
                            i = app("presum", s2, num(m), lift(lambda l: F if l is EMPTY else TR, b2), i)
                        return some(make(replace(val, {e2: field(x, 0, "tuple"), idx(e2): field(x, 1, "tuple")}), i))

                    return bind_opt(r, g, NONE)
        if not occurs(C, ie) and any(it[0] in ("E", "S", "F") for it in its) and all(it[0] in ("E", "S", "F") for it in its):
            r = NONE
            off = slen(S)
            for it in reversed(its):
                off = sub(off, item_len(it))
                if it[0] == "E":
                    r = ite(replace(C, {e: it[1]}), some(make(it[1], off)), r)
                else:
                    s = it[1] if it[0] == "S" else mk("seq", (it,))
                    f1 = find_pair(s, n, replace(C, {e: elem(s, n.a[0])}))
                    o = off
                    r = bind_opt(f1, lambda x: some(make(field(x, 0, "tuple"), add(o, field(x, 1, "tuple")))), r)
            return r
    Cb = bnorm(C)
    if Cb.k == "sw" and Cb.a[0] is ie and Cb.a[1] == "i" and all(c in (F, TR) for c in Cb.a[3]):
        for c, k in zip(Cb.a[2], Cb.a[3]):
            if k is TR:
                lo = max(c[0], 0)
                return ite(icmp("gt", slen(S), num(lo)), some(make(app("nth", S, num(lo)), num(lo))), NONE)
        return NONE
    L = slen(S)
    if L.k != "sw" and occurs(Cb, L):
        # tested at elements only
        Cb = bnorm(T.under(icmp("gt", L, num(0)), bval(Cb)))
        if Cb in (TR, F):
            return find_as(S, n, bval(Cb), make)
    r = opt_atom(mk("app", "find", (S, n, bval(Cb))))
    return bind_opt(r, lambda x: some(make(x, idx(x))), NONE)


def lift_bool(f, v):
    """apply f (giving booleans) to the leaves of a diagram"""
    if v.k != "sw":
        return f(v)
    return switch_map(v, f)


def switch_map(v, f):
    memo = {}

    def go(x):
        if x is BOT:
            return F
        if x.k != "sw":
            return bnorm(f(x))
        r = memo.get(x)
        if r is None:
            r = T.rbuild(x.a[0], x.a[1], x.a[2], tuple(go(c) for c in x.a[3]))
            memo[x] = r
        return r

    return go(v)


def bind_opt(o, f, none):
    """match o { Some(x) => f(x), None => none }"""
    def g(x):
        if x.k == "agg":
            return f(x.a[2][0]) if x.a[1] == 1 else none
        T.ENUM_OF.setdefault(x, OPT)
        return switch(x, "e", (0, 1), (none, f(mk("vfld", x, 1, 0))))

    return lift_sw(g, o)


def bind_res(o, f, g_):
    def g(x):
        if x.k == "agg":
            return f(x.a[2][0]) if x.a[1] == 0 else g_(x.a[2][0])
        T.ENUM_OF.setdefault(x, RES)
        return switch(x, "e", (0, 1), (f(mk("vfld", x, 0, 0)), g_(mk("vfld", x, 1, 0))))

    return lift_sw(g, o)


def lift_sw(g, v):
    """replace the leaves of v by diagrams"""
    if v is BOT:
        return BOT
    if v.k != "sw":
        return g(v)
    memo = {}

    def go(x):
        if x is BOT:
            return BOT
        if x.k != "sw":
            return g(x)
        r = memo.get(x)
        if r is None:
            r = T.build(x.a[0], x.a[1], x.a[2], tuple(go(c) for c in x.a[3]))
            memo[x] = r
        return r

    return go(v)


def any_of(S, C, e):
    """C(e) for some element e of S (e is the generic element used in C)"""
    n = bound_level(S, C)
    C2 = replace(C, {e: elem(S, n)})
    return is_some(app("find", S, num(n), bval(bnorm(C2))))


@hook
def lastof(X):
    return app("nth", X, sub(slen(X), TR))


# ---------------------------------------------------------------- text


def plain(s):
    """text without alternatives, or None"""
    if s.k == "seq":
        return all(it[0] != "A" for it in s.a[0])
    return s.k != "sw"


def with_alts(name, s, *rest):
    """distribute over alternatives embedded in a text"""
    if s.k == "seq" and any(it[0] == "A" for it in s.a[0]):
        x = T.expand(s)
        if x.k == "sw" and T.nleaves(x, LIMIT + 1) <= LIMIT:
            return lift(lambda y: app(name, y, *rest) if y.k != "seq" or plain(y) else mk("app", name, (y,) + rest), x)
    return None


def lower_len(t):
    return T.lower(t)


def drop_front(its, a):
    """drop a bytes from the front of text items; None if not decidable"""
    its = list(its)
    while its:
        if a is F:
            return its
        it = its[0]
        if it[0] == "L":
            if a.k == "int":
                b = it[1].encode("utf-8", "surrogatepass")
                if a.a[0] < 0:
                    return None
                if a.a[0] < len(b):
                    try:
                        r = b[a.a[0]:].decode("utf-8", "surrogatepass")
                    except UnicodeDecodeError:
                        return None
                    its[0] = ("L", r)
                    return its
                a = num(a.a[0] - len(b))
                its.pop(0)
                continue
            if T.lower(a) >= ulen(it[1]):
                a = sub(a, num(ulen(it[1])))
                its.pop(0)
                continue
            return None
        L = item_len(it)
        r = sub(a, L)
        if r.k == "int":
            if r.a[0] >= 0:
                a = r
                its.pop(0)
                continue
            return None
        if T.lower(r) >= 0 and covers(a, L):
            a = r
            its.pop(0)
            continue
        return None
    return [] if a is F else None


def covers(a, L):
    """a is syntactically L + something nonnegative"""
    c, d = T._lp(a)
    c2, d2 = T._lp(L)
    for t, k in d2.items():
        if d.get(t, 0) < k:
            return False
    return c >= c2


def drop_back(its, a):
    r = drop_front_rev(list(its), a)
    return r


def drop_front_rev(its, a):
    while its:
        if a is F:
            return its
        it = its[-1]
        if it[0] == "L":
            if a.k == "int":
                b = it[1].encode("utf-8", "surrogatepass")
                if a.a[0] < 0:
                    return None
                if a.a[0] < len(b):
                    try:
                        r = b[: len(b) - a.a[0]].decode("utf-8", "surrogatepass")
                    except UnicodeDecodeError:
                        return None
                    its[-1] = ("L", r)
                    return its
                a = num(a.a[0] - len(b))
                its.pop()
                continue
            return None
        L = item_len(it)
        r = sub(a, L)
        if r.k == "int" and r.a[0] >= 0:
            a = r
            its.pop()
            continue
        if r.k != "int" and T.lower(r) >= 0 and covers(a, L):
            a = r
            its.pop()
            continue
        return None
    return [] if a is F else None


def so_part(t):
    """(s, p, part) if t is a part of split_once(s, p)"""
    if t.k == "fld" and t.a[0].k == "vfld" and t.a[0].a[1] == 1:
        so = t.a[0].a[0]
        if isapp(so, "split_once"):
            return so.a[1][0], so.a[1][1], t.a[1]
    return None


@hook
def sub_(s, a, b):
    """byte range of a text"""
    if a is b or sub(b, a) is F:
        return EMPTY
    n = slen(s)
    if a is F and b is n:
        return s
    if s.k == "seq":
        r = with_alts("sub", s, a, b)
        if r is not None:
            return r
        its = s.a[0]
        x = drop_front(its, a)
        if x is not None:
            y = drop_back(x, sub(n, b))
            if y is not None:
                return seq(y)
            if len(x) and a is not F:
                s2 = seq(x)
                return app("sub", s2, num(0), sub(b, a))
        else:
            y = drop_back(its, sub(n, b))
            if y is not None and b is not n:
                s2 = seq(y)
                return app("sub", s2, a, slen(s2))
        # range inside the front part only
        if a is F and its:
            it = its[0]
            L = item_len(it)
            d = sub(L, b)
            if len(its) > 1 and T.lower(d) >= 0 and (d.k == "int" or covers(L, b)):
                return app("sub", seq([it]), a, b)
        return None
    if isapp(s, "sub"):
        x, p, q = s.a[1]
        return app("sub", x, add(p, a), add(p, b))
    # positions delimited by a separator
    if a is F:
        for t in len_args(b):
            sp = so_part(t)
            if sp and sp[2] == 0 and sp[0] is s and b is slen(t):
                return t
            if sp and sp[2] == 0 and sp[0] is s and sub(b, slen(t)) is slen(sp[1]):
                return cat(t, sp[1])
    if b is n:
        for t in len_args(a):
            sp = so_part(t)
            if sp and sp[2] == 0 and sp[0] is s:
                d = sub(a, slen(t))
                t1 = mk("fld", t.a[0], 1)
                if d is slen(sp[1]):
                    return t1
                if d is F:
                    return cat(sp[1], t1)
    return None


def len_args(t):
    _, d = T._lp(t)
    return [x.a[1][0] for x in d if x.k == "app" and x.a[0] == "len"]


def pat(p):
    """text of a constant pattern (string or char)"""
    if p.k == "int":
        return chr(p.a[0])
    return as_lit(p)


def bind_so(so, f, none):
    def g(x):
        if x.k == "agg":
            if x.a[1] == 0:
                return none
            t = x.a[2][0]
            return f(field(t, 0, "tuple"), field(t, 1, "tuple"))
        T.ENUM_OF.setdefault(x, OPT)
        t = mk("vfld", x, 1, 0)
        return switch(x, "e", (0, 1), (none, f(mk("fld", t, 0), mk("fld", t, 1))))

    return lift_sw(g, so)


def split_once_(s, p):
    return app("split_once", s, p)


@hook
def split_once(s, p):
    pt = pat(p)
    if pt is None:
        return opt_atom(mk("app", "split_once", (s, p)))
    p = lit(pt)
    l = as_lit(s)
    if l is not None:
        i = l.find(pt) if pt else 0
        if i < 0:
            return NONE
        return some(tup(lit(l[:i]), lit(l[i + len(pt):])))
    if s.k == "seq":
        r = with_alts("split_once", s, p)
        if r is not None:
            return r
        its = list(s.a[0])
        pre_ = []
        while its and its[0][0] == "L" or its and nochar(its[0], pt):
            it = its[0]
            if it[0] == "L":
                i = it[1].find(pt)
                if i >= 0:
                    return some(tup(seq(pre_ + [("L", it[1][:i])]), seq([("L", it[1][i + len(pt):])] + its[1:])))
                if len(pt) > 1:
                    # the pattern could start at the end of the literal
                    if len(its) > 1 and any(it[1].endswith(pt[:j]) for j in range(1, len(pt))):
                        break
            elif len(pt) > 1:
                break
            pre_.append(its.pop(0))
        if not its:
            return NONE
        if pre_:
            P = seq(pre_)
            return bind_so(app("split_once", seq(its), p), lambda a, b: some(tup(cat(P, a), b)), NONE)
    if nochar(("S", s), pt):
        return NONE
    return opt_atom(mk("app", "split_once", (s, p)))


# symbolic texts known not to contain some characters: sym -> set of chars
LACKS = {}


def nochar(it, pt):
    """the item cannot contain the one-char pattern"""
    if len(pt) != 1:
        return False
    if it[0] == "S":
        t = it[1]
        l = LACKS.get(t)
        if l is not None and pt in l:
            return True
        if isapp(t, "dec"):
            return not pt.isdigit()
        sp = so_part(t)
        if sp and sp[2] == 0 and as_lit(sp[1]) == pt:
            return True
        if sp and nochar(("S", sp[0]), pt):
            return True
        if t.k == "elem" and isapp(t.a[0], "split") and pat(t.a[0].a[1][1]) == pt:
            return True
        if t.k == "elem" and isapp(t.a[0], "lines") and pt == "\n":
            return True
        if t.k == "elem" and t.a[0].k == "app" and t.a[0].a[0] in ("split_aws", "split_ws") and pt in WS_ASCII:
            return True
        if isapp(t, "trim") or isapp(t, "sub") or isapp(t, "trim_start") or isapp(t, "trim_end"):
            return nochar(("S", t.a[1][0]), pt)
    return False


def find_pos(s, p):
    so = split_once_(s, p)
    return bind_so(so, lambda a, b: some(slen(a)), NONE)


def rsplit_once(s, p):
    l = as_lit(s)
    pt = pat(p)
    if l is not None and pt:
        i = l.rfind(pt)
        return NONE if i < 0 else some(tup(lit(l[:i]), lit(l[i + len(pt):])))
    return opt_atom(mk("app", "rsplit_once", (s, lit(pt) if pt is not None else p)))


@hook
def split(s, p):
    pt = pat(p)
    if pt is None:
        return None
    p = lit(pt)
    l = as_lit(s)
    if l is not None:
        return seq([("E", lit(x)) for x in l.split(pt)])
    so = split_once_(s, p)
    if so is NONE:
        return one(s)
    if so.k == "agg":
        t = so.a[2][0]
        return cat(one(field(t, 0)), app("split", field(t, 1), p))
    return mk("app", "split", (s, p))


@hook
def starts(s, p):
    pt = pat(p)
    if pt is None:
        return None
    if pt == "":
        return TR
    p = lit(pt)
    l = as_lit(s)
    if l is not None:
        return T.boolt(l.startswith(pt))
    if s.k == "seq":
        r = with_alts("starts", s, p)
        if r is not None:
            return r
        it = s.a[0][0]
        if it[0] == "L":
            if len(it[1]) >= len(pt):
                return T.boolt(it[1].startswith(pt))
            if not pt.startswith(it[1]):
                return F
            return app("starts", seq(s.a[0][1:]), lit(pt[len(it[1]):]))
        if it[0] == "S":
            d = starts_known(it[1], pt)
            if d is not None:
                return d
            if T.lower(slen(it[1])) >= ulen(pt) and len(pt) == 1:
                return app("starts", it[1], p)
            # what follows begins with something not in the prefix
            if len(s.a[0]) > 1:
                nx = s.a[0][1]
                if nx[0] == "L" and nx[1][0] not in pt or nx[0] == "C" and nx[1] in WSCHAR and not any(c in WS_ASCII for c in pt):
                    return app("starts", it[1], p)
        if it[0] == "C" and (it[1] in NBCHAR and ord(pt[0]) < 128 or it[1] in WSCHAR and pt[0] not in WS_ASCII):
            return F
        if it[0] == "C" and len(pt) == 1:
            return icmp("eq", it[1], num(ord(pt)))
    d = starts_known(s, pt)
    if d is not None:
        return d
    return mk("app", "starts", (s, p))


def starts_known(t, pt):
    if isapp(t, "dec") and not pt[0].isdigit():
        return F
    if isapp(t, "trim") or isapp(t, "trim_start"):
        if pt[0] in WS:
            return F
    if isapp(t, "trim") and False:
        return None
    if isapp(t, "trim_start_matches") and pat(t.a[1][1]) == pt[0]:
        return F
    if isapp(t, "trim_end"):
        # trimming the end keeps a leading non-space
        if len(pt) == 1 and pt not in WS:
            return app("starts", t.a[1][0], lit(pt))
    # first word of a text
    w = first_word(t)
    if w is not None:
        if any(c in WS_ASCII for c in pt):
            return F
        if leads(w) or nb_first(t, w):
            return app("starts", w, lit(pt))
    return None


def leads(s):
    """the text starts with a non-space, so its first word is its start"""
    if s.k == "seq" and s.a[0]:
        it = s.a[0][0]
        return it[0] == "L" and it[1][0] not in WS or it[0] == "S" and nospace_start(it[1])
    return nospace_start(s) or isapp(s, "trim") or isapp(s, "trim_start")


def nb_first(t, w):
    """w begins with white space that does not end ASCII words"""
    return t.a[1][0].a[0] == "split_aws" and w.k == "seq" and w.a[0][0][0] == "C" and w.a[0][0][1] in NBCHAR


def first_word(t):
    if isapp(t, "nth") and t.a[1][1] is F and t.a[1][0].k == "app" and t.a[1][0].a[0] in ("split_aws", "split_ws"):
        return t.a[1][0].a[1][0]
    return None


@hook
def ends(s, p):
    pt = pat(p)
    if pt is None:
        return None
    if pt == "":
        return TR
    p = lit(pt)
    l = as_lit(s)
    if l is not None:
        return T.boolt(l.endswith(pt))
    if s.k == "seq":
        r = with_alts("ends", s, p)
        if r is not None:
            return r
        it = s.a[0][-1]
        if it[0] == "L":
            if len(it[1]) >= len(pt):
                return T.boolt(it[1].endswith(pt))
            if not pt.endswith(it[1]):
                return F
            return app("ends", seq(s.a[0][:-1]), lit(pt[: -len(it[1])]))
        if it[0] == "C" and len(pt) == 1:
            return icmp("eq", it[1], num(ord(pt)))
        if it[0] == "S" and len(pt) == 1 and len(s.a[0]) > 1 and T.lower(slen(it[1])) >= 1:
            return app("ends", it[1], p)
    if (isapp(s, "trim") or isapp(s, "trim_end")) and pt[-1] in WS:
        return F
    return mk("app", "ends", (s, p))


def _tstart(its):
    its = list(its)
    done = False
    while its:
        it = its[0]
        if it[0] == "L":
            x = it[1].lstrip(WS)
            if x:
                its[0] = ("L", x)
                return its, True
            its.pop(0)
            continue
        if it[0] == "C" and (it[1] in WSCHAR or it[1] in NBCHAR) or it[0] == "S" and (it[1] in UWS or it[1] in AWS):
            its.pop(0)
            continue
        if it[0] == "S" and nospace_start(it[1]):
            return its, True
        return its, False
    return its, True


def nospace_start(t):
    """the text is not empty and does not start with white space"""
    if isapp(t, "dec"):
        return True
    if t in NONSPACE:
        return True
    if t.k == "elem" and t.a[0].k == "app" and t.a[0].a[0] in ("split_ws",):
        return True
    return False


# facts about input symbols: texts that start and end with a non-space, texts of
# white space only (any, ASCII), characters that are ASCII white space
NONSPACE = set()
UWS = set()
AWS = set()
WSCHAR = set()
# white space outside ASCII
NBCHAR = set()


def nospace_end(t):
    return nospace_start(t)


def _tend(its):
    its = list(its)
    while its:
        it = its[-1]
        if it[0] == "L":
            x = it[1].rstrip(WS)
            if x:
                its[-1] = ("L", x)
                return its, True
            its.pop()
            continue
        if it[0] == "C" and (it[1] in WSCHAR or it[1] in NBCHAR) or it[0] == "S" and (it[1] in UWS or it[1] in AWS):
            its.pop()
            continue
        if it[0] == "S" and nospace_end(it[1]):
            return its, True
        return its, False
    return its, True


@hook
def trim(s):
    if s.k == "seq":
        r = with_alts("trim", s)
        if r is not None:
            return r
        a, da = _tstart(s.a[0])
        if not a:
            return EMPTY
        b, db = _tend(a)
        if not b:
            return EMPTY
        if da and db:
            return seq(b)
        if da:
            return app("trim_end", seq(b))
        if db:
            return app("trim_start", seq(b))
        s2 = seq(b)
        if s2 is not s:
            return app("trim", s2)
        return None
    if isapp(s, "trim"):
        return s
    if isapp(s, "trim_start") or isapp(s, "trim_end"):
        return app("trim", s.a[1][0])
    if nospace_start(s):
        return s
    return None


@hook
def trim_start(s):
    if s.k == "seq":
        r = with_alts("trim_start", s)
        if r is not None:
            return r
        a, da = _tstart(s.a[0])
        if not a:
            return EMPTY
        if da:
            return seq(a)
        s2 = seq(a)
        return app("trim_start", s2) if s2 is not s else None
    if isapp(s, "trim") or isapp(s, "trim_start"):
        return s
    if isapp(s, "trim_end"):
        return app("trim", s.a[1][0])
    if nospace_start(s):
        return s
    return None


@hook
def trim_end(s):
    if s.k == "seq":
        r = with_alts("trim_end", s)
        if r is not None:
            return r
        a, da = _tend(s.a[0])
        if not a:
            return EMPTY
        if da:
            return seq(a)
        s2 = seq(a)
        return app("trim_end", s2) if s2 is not s else None
    if isapp(s, "trim") or isapp(s, "trim_end"):
        return s
    if isapp(s, "trim_start"):
        return app("trim", s.a[1][0])
    if nospace_end(s):
        return s
    return None


@hook
def trim_start_matches(s, p):
    pt = pat(p)
    if pt is None or pt == "":
        return None
    p = lit(pt)
    if s.k == "seq":
        r = with_alts("trim_start_matches", s, p)
        if r is not None:
            return r
        its = list(s.a[0])
        while its and its[0][0] == "L":
            x = its[0][1]
            while x.startswith(pt):
                x = x[len(pt):]
            if x:
                if len(pt) == 1 or not pt.startswith(x) or len(its) == 1:
                    its[0] = ("L", x)
                    return seq(its)
                return None
            its.pop(0)
        if not its:
            return EMPTY
        s2 = seq(its)
        if s2 is not s:
            return app("trim_start_matches", s2, p)
        if its[0][0] == "S" and nochar(its[0], pt) and T.lower(slen(its[0][1])) > 0:
            return s
        if its[0][0] == "C" and its[0][1] in WSCHAR and pt[0] not in WS_ASCII:
            return s
        return None
    if isapp(s, "trim_start_matches") and s.a[1][1] is p:
        return s
    if nochar(("S", s), pt):
        return s
    return None


@hook
def trim_end_matches(s, p):
    pt = pat(p)
    if pt is None or pt == "":
        return None
    p = lit(pt)
    if s.k == "seq":
        its = list(s.a[0])
        while its and its[-1][0] == "L":
            x = its[-1][1]
            while x.endswith(pt):
                x = x[: -len(pt)]
            if x:
                its[-1] = ("L", x)
                return seq(its)
            its.pop()
        if not its:
            return EMPTY
        s2 = seq(its)
        if s2 is not s:
            return app("trim_end_matches", s2, p)
        return None
    if isapp(s, "trim_end_matches") and s.a[1][1] is p:
        return s
    return None


def blank_item(it, name):
    return it[0] == "C" and it[1] in WSCHAR or it[0] == "S" and (it[1] in AWS or name == "split_ws" and it[1] in UWS)


def _words(s, ws, name):
    l = as_lit(s)
    if l is not None:
        out = []
        cur = ""
        for c in l:
            if c in ws:
                if cur:
                    out.append(cur)
                cur = ""
            else:
                cur += c
        if cur:
            out.append(cur)
        return seq([("E", lit(x)) for x in out])
    if s.k == "seq":
        r = with_alts(name, s)
        if r is not None:
            return r
        its = list(s.a[0])
        # leading white space
        if its[0][0] == "L":
            x = its[0][1].lstrip(ws)
            if x != its[0][1]:
                return app(name, seq([("L", x)] + its[1:]))
        if blank_item(its[0], name):
            return app(name, seq(its[1:]))
        # first word made of known items
        word = []
        for j, it in enumerate(its):
            if it[0] == "L":
                k = next((i for i, c in enumerate(it[1]) if c in ws), None)
                if k is not None:
                    word.append(("L", it[1][:k]))
                    rest = seq([("L", it[1][k:])] + its[j + 1:])
                    w = seq(word)
                    if T.lower(slen(w)) < 1:
                        return None
                    return cat(one(w), app(name, rest))
                word.append(it)
                continue
            if it[0] == "C" and it[1] in WSCHAR:
                w = seq(word)
                return cat(one(w), app(name, seq(its[j:]))) if T.lower(slen(w)) >= 1 else None
            if it[0] == "S" and all(nochar(it, c) for c in ws):
                word.append(it)
                continue
            break
        else:
            w = seq(word)
            if T.lower(slen(w)) >= 1:
                return one(w)
            return None
        return None
    if all(nochar(("S", s), c) for c in ws):
        return ite(icmp("eq", slen(s), num(0)), EMPTY, one(s))
    return None


@hook
def split_aws(s):
    if isapp(s, "trim") or isapp(s, "trim_start") or isapp(s, "trim_end"):
        pass
    return _words(s, WS_ASCII, "split_aws")


@hook
def split_ws(s):
    if isapp(s, "trim") or isapp(s, "trim_start") or isapp(s, "trim_end"):
        return app("split_ws", s.a[1][0])
    return _words(s, WS, "split_ws")


@hook
def lines(s):
    l = as_lit(s)
    if l is not None:
        if l == "":
            return EMPTY
        x = l.split("\n")
        if x[-1] == "":
            x.pop()
        return seq([("E", lit(y[:-1] if y.endswith("\r") else y)) for y in x])
    return None


@hook
def chars(s):
    if s.k == "seq":
        out = []
        for it in s.a[0]:
            if it[0] == "L":
                out.extend(("E", num(ord(c))) for c in it[1])
            elif it[0] == "C":
                out.append(("E", it[1]))
            elif it[0] == "S":
                out.append(("S", app("chars", it[1])))
            else:
                return None
        return seq(out)
    return None


@hook
def width(s):
    l = as_lit(s)
    if l is not None and all(" " <= c <= "~" for c in l):
        return num(len(l))
    return None


@hook
def dec(x):
    if x.k == "int":
        return lit(str(x.a[0]))
    return None


@hook
def utf8len(x):
    if x in WSCHAR:
        return TR
    if x.k == "int":
        return num(ulen(chr(x.a[0])))
    return None


@hook
def mul_(a, b):
    return T.mul(a, b)


@hook
def le32(x):
    if isapp(x, "le_bytes"):
        return x.a[1][0]
    if isapp(x, "be_bytes"):
        return app("bswap", x.a[1][0])
    if x.k == "seq" and len(x.a[0]) == 4 and all(i[0] == "E" and i[1].k == "int" for i in x.a[0]):
        return num(sum(i[1].a[0] << (8 * j) for j, i in enumerate(x.a[0])))
    return None


@hook
def be32(x):
    if isapp(x, "be_bytes"):
        return x.a[1][0]
    if isapp(x, "le_bytes"):
        return app("bswap", x.a[1][0])
    if x.k == "seq" and len(x.a[0]) == 4 and all(i[0] == "E" and i[1].k == "int" for i in x.a[0]):
        return num(sum(i[1].a[0] << (8 * (3 - j)) for j, i in enumerate(x.a[0])))
    # canonical: byte swapped little endian reading
    return app("bswap", app("le32", x))


@hook
def bswap(x):
    if x.k == "int":
        return num(int.from_bytes(x.a[0].to_bytes(4, "little"), "big"))
    if isapp(x, "bswap"):
        return x.a[1][0]
    return None


@hook
def le_bytes(x):
    if x.k == "int":
        return seq([("E", num(b)) for b in (x.a[0] & 0xFFFFFFFF).to_bytes(4, "little")])
    return None


@hook
def be_bytes(x):
    if x.k == "int":
        return seq([("E", num(b)) for b in (x.a[0] & 0xFFFFFFFF).to_bytes(4, "big")])
    return None


@hook
def lossy(x):
    l = as_lit(x)
    if l is not None:
        return x
    return None


@hook
def escape(x):
    if x is EMPTY:
        return EMPTY
    return None


def join(S, sep):
    n = bound_level(S, sep)
    e = elem(S, n)
    body = cat(ite(icmp("eq", idx(e), num(0)), EMPTY, sep), e)
    return each(S, n, body)


def concat(S):
    n = bound_level(S)
    return each(S, n, elem(S, n))


# each(): move a separator after every element but the last before every
# element but the first
_each0 = T._each


def _each(S, n, body):
    e = elem(S, n)
    ie = idx(e)
    if body.k == "seq" and len(body.a[0]) >= 1:
        it = body.a[0][-1]
        if it[0] == "A":
            d = sub(ie, slen(S))
            v = it[1]
            if v.k == "sw" and v.a[1] == "i" and d.k == "lin":
                atom, m, off = T.lin_atom(d)
                if v.a[0] is atom:
                    sep = None
                    okk = True
                    for c, k in zip(v.a[2], v.a[3]):
                        lo = c[0] if m > 0 else -c[1]
                        hi = c[1] if m > 0 else -c[0]
                        # value of idx-len in [lo,hi]
                        if k is EMPTY:
                            if lo < -1 <= hi or hi < -1:
                                okk = False
                        else:
                            if hi > -2 and hi < POS and not hi == -2:
                                if hi >= -1:
                                    okk = False
                            if sep is not None:
                                okk = False
                            sep = k
                    if okk and sep is not None and sep.k != "sw" and not occurs(sep, e):
                        b = cat(ite(icmp("eq", ie, num(0)), EMPTY, sep), seq(body.a[0][:-1]))
                        return T.each(S, n, b)
    return _each0(S, n, body)


T._each = _each


# ---------------------------------------------------------------- comparison


def vcmp(a, b):
    """three way comparison (Ordering) of two values"""
    def f(x, y):
        if x is y:
            return ORD[1]
        if x.k == "int" and y.k == "int":
            return ORD[0] if x.a[0] < y.a[0] else ORD[2] if x.a[0] > y.a[0] else ORD[1]
        lx, ly = as_lit(x), as_lit(y)
        if lx is not None and ly is not None:
            bx, by = lx.encode("utf-8", "surrogatepass"), ly.encode("utf-8", "surrogatepass")
            return ORD[0] if bx < by else ORD[2] if bx > by else ORD[1]
        if x.k == "agg" and y.k == "agg" and x.a[0] == y.a[0] == "tuple":
            r = ORD[1]
            for p, q in reversed(list(zip(x.a[2], y.a[2]))):
                r = discr_switch(vcmp(p, q), ORDT, (ORD[0], r, ORD[2]))
            return r
        if x.k == "agg" and y.k == "agg" and x.a[0] == y.a[0]:
            if x.a[1] != y.a[1]:
                return ORD[0] if x.a[1] < y.a[1] else ORD[2]
            if not x.a[2]:
                return ORD[1]
            r = ORD[1]
            for p, q in reversed(list(zip(x.a[2], y.a[2]))):
                r = discr_switch(vcmp(p, q), ORDT, (ORD[0], r, ORD[2]))
            return r
        if x.k == "agg" and x.a[0] in (OPT,):
            return opt_cmp(x, y)
        if y.k == "agg" and y.a[0] in (OPT,):
            return discr_switch(opt_cmp(y, x), ORDT, (ORD[2], ORD[1], ORD[0]))
        if is_int(x) or is_int(y):
            return icmp("cmp", x, y)
        if x is EMPTY and T.lower(slen(y)) > 0:
            return ORD[0]
        if y is EMPTY and T.lower(slen(x)) > 0:
            return ORD[2]
        # canonical orientation
        if x.id > y.id:
            t = mk("app", "cmp3", (y, x))
            T.ENUM_OF.setdefault(t, ORDT)
            return discr_switch(t, ORDT, (ORD[2], ORD[1], ORD[0]))
        t = mk("app", "cmp3", (x, y))
        T.ENUM_OF.setdefault(t, ORDT)
        return t

    return lift_sw2(f, a, b)


@hook
def cmp3(x, y):
    return vcmp(x, y)


def lift_sw2(f, a, b):
    if a is BOT or b is BOT:
        return BOT
    return lift_sw(lambda x: lift_sw(lambda y: f(x, y), b), a)


def is_int(t):
    return t.k in ("int", "lin", "idx") or t in T.INTS or t.k == "app" and t.a[0] in ("len", "sum", "presum", "width", "le32", "bswap", "mul", "utf8len")


def opt_cmp(x, y):
    if x.a[1] == 0:
        return bind_opt(y, lambda q: ORD[0], ORD[1])
    return bind_opt(y, lambda q: vcmp(x.a[2][0], q), ORD[2])


def veq(a, b):
    """equality of two values"""
    def f(x, y):
        if x is y:
            return TR
        if x.k == "int" and y.k == "int":
            return T.boolt(x is y)
        if y.k == "agg" and x.k != "agg":
            x, y = y, x
        if x.k == "agg":
            tag = x.a[0]
            if y.k == "agg":
                if x.a[1] != y.a[1] or len(x.a[2]) != len(y.a[2]):
                    return F
                return bval(band(*[veq(p, q) for p, q in zip(x.a[2], y.a[2])]))
            if tag in T.ENUM_VARIANTS and tag not in T.STRUCT_ARITY:
                n = len(T.ENUM_VARIANTS[tag])
                T.ENUM_OF.setdefault(y, tag)
                inner = TR
                if x.a[2]:
                    inner = bval(band(*[veq(p, vfield(y, x.a[1], i)) for i, p in enumerate(x.a[2])]))
                return switch(y, "e", tuple(range(n)), tuple(inner if i == x.a[1] else F for i in range(n)))
            return bval(band(*[veq(p, field(y, i, tag)) for i, p in enumerate(x.a[2])]))
        lx, ly = as_lit(x), as_lit(y)
        if lx is not None and ly is not None:
            return T.boolt(lx == ly)
        if ly is not None:
            x, y, lx, ly = y, x, ly, lx
        if lx is not None:
            if lx == "":
                return icmp("eq", slen(y), num(0))
            return streq(y, lx)
        if x.k == "seq" and y.k == "seq" and x.a[0] and y.a[0] and all(i[0] == "E" for i in x.a[0] + y.a[0]):
            if len(x.a[0]) != len(y.a[0]):
                return F
            return bval(band(*[veq(p[1], q[1]) for p, q in zip(x.a[0], y.a[0])]))
        if is_int(x) or is_int(y) or x.k == "int" or y.k == "int":
            return icmp("eq", x, y)
        if T.ENUM_OF.get(x) == "bool" or T.ENUM_OF.get(y) == "bool":
            return bval(bor(band(x, y), band(bnot(x), bnot(y))))
        if T.ENUM_OF.get(x) == OPT or T.ENUM_OF.get(y) == OPT:
            return bind_opt(x, lambda p: bind_opt(y, lambda q: veq(p, q), F), bnot(is_some(y)))
        return discr_switch(vcmp(x, y), ORDT, (F, TR, F))

    return bval(bnorm(lift_sw2(f, a, b)))


def streq(v, l):
    """v == literal"""
    if v.k == "seq":
        x = T.expand(v)
        if x.k == "sw":
            return lift_sw(lambda y: streq(y, l), x)
        # strip known ends
        its = list(v.a[0])
        if its and its[0][0] == "L":
            p = its[0][1]
            if len(p) > len(l):
                return F
            if not l.startswith(p):
                return F
            return streq(seq(its[1:]), l[len(p):])
        if its and its[-1][0] == "L":
            p = its[-1][1]
            if len(p) > len(l) or not l.endswith(p):
                return F
            return streq(seq(its[:-1]), l[: -len(p)])
        if not its:
            return T.boolt(l == "")
    if any(nochar(("S", v), c) for c in set(l)):
        return F
    w = first_word(v)
    if w is not None and (leads(w) or nb_first(v, w)):
        if app("starts", w, lit(l)) is F:
            return F
        if w.k == "seq" and w.a[0][0][0] == "L" and not any(c in WS_ASCII for c in w.a[0][0][1]) and not l.startswith(w.a[0][0][1]):
            return F
    if l == "":
        return icmp("eq", slen(v), num(0))
    if isapp(v, "dec"):
        return icmp("eq", v.a[1][0], num(int(l))) if l.isdigit() and str(int(l)) == l else F
    return switch(v, "s", (l, None), (TR, F))


# ---------------------------------------------------------------- maps


@hook
def map_get(m, k):
    if isapp(m, "mapnew"):
        return NONE
    if isapp(m, "maplit"):
        S = m.a[1][0]
        r = NONE
        for it in S.a[0]:
            r = ite(veq(k, field(it[1], 0)), some(field(it[1], 1)), r)
        return r
    if isapp(m, "map_insert"):
        m0, k0, v = m.a[1]
        return ite(veq(k, k0), some(v), app("map_get", m0, k))
    if isapp(m, "map_remove"):
        m0, k0 = m.a[1]
        return ite(veq(k, k0), NONE, app("map_get", m0, k))
    if k.k == "elem" and isapp(k.a[0], "keys") and k.a[0].a[1][0] is m:
        return some(mk("app", "map_at", (m, k)))
    if k.k == "elem" and isapp(k.a[0], "sort") and isapp(k.a[0].a[1][0], "keys") and k.a[0].a[1][0].a[1][0] is m:
        return some(mk("app", "map_at", (m, k)))
    return opt_atom(mk("app", "map_get", (m, k)))


@hook
def maplit(S):
    if S is EMPTY:
        return mk("app", "mapnew", ())
    return None


@hook
def map_insert(m, k, v):
    # inserting after removing the same key
    if isapp(m, "map_remove") and m.a[1][1] is k:
        return app("map_insert", m.a[1][0], k, v)
    if isapp(m, "map_insert") and m.a[1][1] is k:
        return app("map_insert", m.a[1][0], k, v)
    return None


@hook
def map_len(m):
    if isapp(m, "mapnew"):
        return F
    if isapp(m, "map_insert"):
        return None
    return None


def lower_hook(t):
    n, a = t.a
    if n == "len":
        x = a[0]
        if isapp(x, "split"):
            return 1
        if x in MINLEN:
            return MINLEN[x]
        if x in NONSPACE:
            return 1
        if isapp(x, "skip"):
            k = x.a[1][1]
            if k.k == "idx" and k.a[0].k == "elem" and k.a[0].a[0] is x.a[1][0]:
                return 1
        if isapp(x, "wrap"):
            return 1
        if x.k == "elem" and x.a[0].k == "app" and x.a[0].a[0] in ("split_aws", "split_ws"):
            return 1
        if isapp(x, "nth") and x.a[1][0].k == "app" and x.a[1][0].a[0] in ("split_aws", "split_ws"):
            return 1
        if x.k == "app" and x.a[0] in ("split_aws", "split_ws"):
            s = x.a[1][0]
            if s in NONSPACE or s.k == "seq" and any(i[0] == "L" and i[1].strip(WS) or i[0] == "S" and i[1] in NONSPACE for i in s.a[0]):
                return 1
        if isapp(x, "dec"):
            return 1
        return 0
    if n == "utf8len":
        return 1
    if n == "neg":
        return NEG
    return 0


MINLEN = {}
T.LOWER_HOOK[0] = lower_hook

_slen0 = T.slen


def slen2(v):
    r = T._lenm.get(v)
    if r is not None:
        return r
    r = None
    if v.k == "app":
        n, a = v.a
        if n == "split":
            s, p = a
            if so_depth(s) < 2:
                so = split_once_(s, p)
                r = bind_so(so, lambda x, y: add(TR, slen2(app("split", y, p))), TR)
        elif n == "skip":
            L = slen2(a[0])
            if a[1].k == "idx" and a[1].a[0].k == "elem" and a[1].a[0].a[0] is a[0]:
                r = sub(L, a[1])
            elif a[1].k == "int" or True:
                if isapp(a[0], "range") or a[0].k != "app" or True:
                    r = ssub(L, a[1])
        elif n == "take":
            L = slen2(a[0])
            i = a[1]
            if i.k == "idx" and i.a[0].k == "elem" and i.a[0].a[0] is a[0]:
                r = i
            else:
                r = imin(i, L)
        elif n == "pre":
            S, m, B, e = a
            r = app("presum", S, m, slen2(B), e)
        elif n == "sub":
            r = sub(a[2], a[1])
        elif n == "keys":
            r = app("map_len", a[0])
        elif n == "chars" and False:
            pass
        elif n == "rd":
            r = a[2]
    if r is None:
        return _slen0(v)
    T._lenm[v] = r
    return r


def so_depth(s):
    d = 0
    while True:
        sp = so_part(s)
        if sp is None:
            return d
        d += 1
        s = sp[0]


T.slen = slen2
slen = slen2


# position of a selected element
_idx0 = T.idx


def idx2(e):
    if isapp(e, "nth"):
        return e.a[1][1]
    return _idx0(e)


T.idx = idx2
idx = idx2


# ------------------------------------------------------------------ contradictions between tests


def consistent(p):
    """the condition without the cases whose tests exclude each other"""
    memo = {}

    def known(facts, atom, kind, case):
        """False when the case contradicts what was tested before"""
        for t, l in facts:
            if kind == "i" and atom is slen(t) and case[1] < ulen(l):
                return False
            if kind == "e" and case == 0 and isapp(atom, "boundary") and atom.a[1][0] is t and atom.a[1][1].k == "int":
                n, c = atom.a[1][1].a[0], 0
                for x in l:
                    c += ulen(x)
                    if c == n:
                        return False
        return True

    def go(v, facts):
        if v.k != "sw":
            return v
        key = (v, facts)
        if key in memo:
            return memo[key]
        atom, kind, cases, kids = v.a
        out = []
        for i, (c, x) in enumerate(zip(cases, kids)):
            case = i if kind == "e" else c
            if not known(facts, atom, kind, case):
                out.append(F)
                continue
            f = facts
            if kind == "e" and i == 1 and isapp(atom, "starts") and as_lit(atom.a[1][1]):
                f = facts | {(atom.a[1][0], as_lit(atom.a[1][1]))}
            out.append(go(x, f))
        r = F if all(x is F for x in out) else T.build(atom, kind, cases, out)
        memo[key] = r
        return r

    return bnorm(go(bval(p), frozenset()))
