"""C14 layout, C15 completeness and order of MO bytes, C17 key and value structure (writing)."""
import decide
import ev
from rules.common import *  # noqa


def mo_key(lib, e):
    g = lambda n: lib.f(e, "MOEntry", n)
    return cat(eot_key(lib, e), opt(g("msgid_plural"), EMPTY, lambda p: cat(lit("\0"), p)))


def mo_value(lib, e):
    g = lambda n: lib.f(e, "MOEntry", n)
    return opt(g("msgid_plural"), or_empty(g("msgstr")), lambda p: joined(g("msgstr_plural"), lit("\0")))


def spec_entries(lib, me):
    meta = mk("app", "metaentry", (me,))
    all_ = cat(one(meta), lib.f(me, "MOFile", "entries"))
    a, b = sym("§a"), sym("§b")
    return app("sort", all_, Q.vcmp(eot_key(lib, a), eot_key(lib, b)))


def presum(S, f):
    """sum over the elements before the current one; given to body as function of e"""
    e0 = elem(S, -1)
    k = Q.bound_level(S, f(e0))
    return lambda e: app("presum", S, num(k), f(elem(S, k)), idx(e))


def spec_bytes(lib, me, magic, rev):
    E = spec_entries(lib, me)
    K, V = (lambda e: mo_key(lib, e)), (lambda e: mo_value(lib, e))
    n = slen(E)

    def out(b):
        ks = add(num(28), mul(num(16), n))
        vs = add(ks, slen(over(E, lambda e: cat(K(e), lit("\0")))))
        kp = presum(E, lambda e: add(slen(K(e)), num(1)))
        vp = presum(E, lambda e: add(slen(V(e)), num(1)))
        return cat(
            b(num(MAGIC)), b(rev), b(n), b(num(28)), b(add(num(28), mul(num(8), n))), *[one(F)] * 4, b(ks),
            over(E, lambda e: cat(b(slen(K(e))), b(add(ks, kp(e))))),
            over(E, lambda e: cat(b(slen(V(e))), b(add(vs, vp(e))))),
            over(E, lambda e: cat(K(e), lit("\0"))),
            over(E, lambda e: cat(V(e), lit("\0"))),
        )

    le = lambda x: app("le_bytes", x)
    be = lambda x: app("be_bytes", x)
    return ite(icmp("eq", magic, num(MAGIC_SWAPPED)), out(be), out(le))


def no_wrap(t):
    """lengths and offsets fit 32 bits"""
    return T.rewrite(t, lambda x: no_wrap(x.a[1][0]) if x.k == "app" and x.a[0] == "as_u32" else None)


def metaentry(f):
    """some entry with empty msgid made from the metadata"""
    m = "".join("%s: %s\n" % (k, f[2][k]) for k in sorted(f[2]))
    return ("", ev.some(m) if m else ev.NONE, ev.NONE, [], ev.NONE)


# ------------------------------------------------------------------ reading a result


def parse(b):
    """(order, revision, keys, values) or a text saying what is wrong"""
    b = ev.tobytes(b)
    if len(b) < 28:
        return "short"
    w = lambda p, o: int.from_bytes(bytes(b[p:p + 4]), o)
    for o in ("little", "big"):
        if w(0, o) == MAGIC:
            break
    else:
        return "magic"
    n, kt, vt, hs = w(8, o), w(12, o), w(16, o), w(20, o)
    if hs:
        return "hash table"
    if n > 10000 or kt + 8 * n > len(b) or vt + 8 * n > len(b):
        return "tables"
    res = []
    for t in (kt, vt):
        xs = []
        for i in range(n):
            l, p = w(t + 8 * i, o), w(t + 8 * i + 4, o)
            if p + l + 1 > len(b) or p < 28 + 16 * n:
                return "string outside"
            if b[p + l] != 0:
                return "no NUL"
            xs.append(bytes(b[p:p + l]))
        res.append(xs)
    return o, w(4, o), res[0], res[1]


def layout_ok(c, s):
    return parse(c) == parse(s)


def content_ok(c, s):
    p, q = parse(c), parse(s)
    if isinstance(p, str) or isinstance(q, str):
        return True
    if p[2] != sorted(p[2], key=lambda k: k.split(b"\0")[0]):
        return False
    return sorted(zip(p[2], p[3])) == sorted(zip(q[2], q[3]))


def structure_ok(c, s):
    p, q = parse(c), parse(s)
    if isinstance(p, str) or isinstance(q, str):
        return True
    return sorted(zip(p[2], p[3])) == sorted(zip(q[2], q[3]))


def inputs_for(s):
    r = dict(s.inputs)
    magic, rev = s.args[1], s.args[2]
    r[magic] = lambda g: g.r.choice((MAGIC, MAGIC, MAGIC_SWAPPED, MAGIC_SWAPPED, 7))
    r[rev] = lambda g: g.r.choice((0, 1, 2, 255, 256, 0x12345678))
    return r


def whole(c, label, agree):
    lib = c.lib
    fn = c.need(lib.method("MOFile", "as_bytes_with"), "as_bytes_with")
    meta = c.need(lib.method("MOFile", "metadata_as_entry"), "metadata_as_entry")
    s = lib.summary(fn, extra={meta: lambda I, st, a: mk("app", "metaentry", (I.dd(st, a[0]),))}, key="meta")
    me, magic, rev = s.args
    c.same(label, fn, no_wrap(s.ret), spec_bytes(lib, me, magic, rev), inputs_for(s), agree=agree, funs={"metaentry": metaentry})
    return fn


def c14(c):
    lib = c.lib
    c.part("layout", lambda: whole(c, "MOFile::as_bytes_with layout", layout_ok))

    def orders():
        w = c.need(lib.method("MOFile", "as_bytes_with"), "as_bytes_with")

        def w_op(I, st, a):
            return mk("app", "mobytes", tuple(I.dd(st, x) for x in a))

        for name, magic in (("as_bytes", MAGIC), ("as_bytes_le", MAGIC), ("as_bytes_be", MAGIC_SWAPPED)):
            fn = c.need(lib.method("MOFile", name, "AsBytes"), name)
            s = lib.summary(fn, extra={w: w_op}, key="mobytes")
            c.same("MOFile::%s byte order" % name, fn, s.ret, mk("app", "mobytes", (s.args[0], num(magic), num(0))), s.inputs,
                   funs={"mobytes": lambda f, g, r: (f, int(g == MAGIC_SWAPPED), r)})
            fn = c.need(lib.method("POFile", name, "AsBytes"), name)
            s = lib.summary(fn, extra={w: w_op}, key="mobytes")
            for leaf in T.leaves(s.ret):
                if leaf.k == "app" and leaf.a[0] == "mobytes":
                    c.same("POFile::%s byte order" % name, fn, leaf.a[1][1], num(magic), s.inputs)
                    c.same("POFile::%s revision" % name, fn, leaf.a[1][2], num(0), s.inputs)

    c.part("byte order", orders)


def c15(c):
    c.part("content", lambda: whole(c, "MOFile::as_bytes_with has every entry once, keys ascending, values in the same order", content_ok))


def c17_write(c):
    lib = c.lib
    c.part("writer", lambda: whole(c, "MOFile::as_bytes_with key and value structure", structure_ok))

    def keys():
        for ty in ("MOEntry", "POEntry"):
            fn = lib.method(ty, "msgid_eot_msgctxt", "MsgidEotMsgctxt")
            if fn:
                s = lib.summary(fn)
                c.same("%s::msgid_eot_msgctxt" % ty, fn, s.ret, eot_key(lib, s.args[0], ty), s.inputs)

    c.part("keys", keys)
