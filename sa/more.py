"""Meaning of library functions the code could call as well."""
import unicodedata

import ev
import models as MD
from models import *  # noqa
from models import M, model
from interp import Unsupported
import terms as T
import seqs as Q


# ------------------------------------------------- characters chosen by a test


def chooses(c, i):
    """the pattern is a test on characters or a list of them"""
    p = c.v(i)
    if p.k == "fn":
        return True
    return p.k == "seq" and bool(p.a[0]) and all(it[0] == "E" for it in p.a[0]) and "char" in aty(c, i)


def where(c, s, i, neg=False):
    """(chars, level, condition on the element)"""
    S = app("chars", s)
    if S.k == "sw":
        S = mk("app", "chars", (s,))
    p = c.v(i)
    build = (lambda v: bval(bnot(v))) if neg else (lambda v: bval(bnorm(v)))
    if p.k == "fn":
        return pure_map(c, S, p, lambda e, v: build(v))
    n = Q.bound_level(S, p)
    e = elem(S, n)
    return S, n, build(bor(*[icmp("eq", e, it[1]) for it in p.a[0]]))


def offset(S, i):
    """bytes before the i-th character"""
    n = Q.bound_level(S, i)
    return app("presum", S, num(n), app("utf8len", elem(S, n)), i)


def first_where(c, s, i, neg, found, none):
    """found(offset, character) of the first character chosen"""
    r = where(c, s, i, neg)
    if r is None:
        return None
    f = Q.find_pair(r[0], num(r[1]), r[2])
    return bind_opt(f, lambda x: found(offset(r[0], field(x, 1, "tuple")), field(x, 0, "tuple")), none)


def last_where(c, s, i, neg, found, none):
    r = where(c, s, i, neg)
    if r is None:
        return None
    S, n, C = r
    R = app("rev", S)
    f = Q.find_pair(R, num(n), replace(C, {elem(S, n): elem(R, n)}))
    return bind_opt(f, lambda x: found(offset(S, sub(sub(slen(S), TR), field(x, 1, "tuple"))), field(x, 0, "tuple")), none)


def end_char(c, s, i, last):
    """(is there one, chosen, the character)"""
    r = where(c, s, i)
    if r is None:
        return None
    S, n, C = r
    ne = icmp("gt", slen(S), num(0))
    k = sub(slen(S), TR) if last else num(0)
    x = app("nth", S, k)
    return band(ne, replace(C, {elem(S, n): x, idx(elem(S, n)): k})), x


def cases(c, s, f):
    if s.k != "sw":
        return f(c, s)
    d = {}
    for l in leaves(s):
        d[l] = BOT if l is BOT else cases(c, l, f)
        if d[l] is None:
            return None
    return lift_sw(lambda x: d[x], s)


def over(key):
    """what the plain pattern already means, or the function below"""
    old = M.get(key)

    def d(f):
        def g(c):
            if chooses(c, 1):
                return cases(c, c.v(0), f)
            return old(c) if old else None

        M[key] = g
        return g

    return d


def w(x):
    return app("utf8len", x)


@over("str.find")
def _(c, s):
    return first_where(c, s, 1, False, lambda o, x: some(o), NONE)


@over("str.rfind")
def _(c, s):
    return last_where(c, s, 1, False, lambda o, x: some(o), NONE)


@over("str.contains")
def _(c, s):
    r = where(c, s, 1)
    return r and is_some(app("find", r[0], num(r[1]), r[2]))


@over("str.starts_with")
def _(c, s):
    r = end_char(c, s, 1, False)
    return r and bval(r[0])


@over("str.ends_with")
def _(c, s):
    r = end_char(c, s, 1, True)
    return r and bval(r[0])


@over("str.strip_prefix")
def _(c, s):
    r = end_char(c, s, 1, False)
    return r and ite(r[0], some(app("sub", s, w(r[1]), slen(s))), NONE)


@over("str.strip_suffix")
def _(c, s):
    r = end_char(c, s, 1, True)
    return r and ite(r[0], some(app("sub", s, num(0), sub(slen(s), w(r[1])))), NONE)


def tsm(c, s):
    return first_where(c, s, 1, True, lambda o, x: app("sub", s, o, slen(s)), EMPTY)


def tem(c, s):
    return last_where(c, s, 1, True, lambda o, x: app("sub", s, num(0), add(o, w(x))), EMPTY)


over("str.trim_start_matches")(tsm)
over("str.trim_left_matches")(tsm)
over("str.trim_end_matches")(tem)
over("str.trim_right_matches")(tem)


@over("str.trim_matches")
def _(c, s):
    a = tsm(c, s)
    return a and tem(c, a)


@over("str.split_once")
def _(c, s):
    return first_where(c, s, 1, False, lambda o, x: some(tup(app("sub", s, num(0), o), app("sub", s, add(o, w(x)), slen(s)))), NONE)


@over("str.rsplit_once")
def _(c, s):
    return last_where(c, s, 1, False, lambda o, x: some(tup(app("sub", s, num(0), o), app("sub", s, add(o, w(x)), slen(s)))), NONE)


def marks(c, s, i):
    """for each character whether it is chosen"""
    r = where(c, s, i)
    if r is None:
        return None
    S, n, C = r
    return each(S, n, one(C))


def by_marks(key, name):
    @over(key)
    def _(c, s):
        m = marks(c, s, 1)
        return m and app(name, s, m)


by_marks("str.split", "cut")
by_marks("str.split_terminator", "cut_terminator")
by_marks("str.split_inclusive", "cut_inclusive")
by_marks("str.matches", "cut_matches")


@over("str.rsplit")
def _(c, s):
    m = marks(c, s, 1)
    return m and app("rev", app("cut", s, m))


_replace = M["str.replace"]


@model("str.replace")
def _(c):
    if chooses(c, 1):
        r = where(c, c.v(0), 1)
        if r is None:
            return None
        S, n, C = r
        return each(S, n, ite(C, c.v(2), ch(elem(S, n))))
    return _replace(c)


def pieces(s, m):
    out = [""]
    for x, k in zip(s, m):
        if k:
            out.append("")
        else:
            out[-1] += x
    return out


def bits(m):
    return [ev.intv(x) for x in ev.lst(m)]


ev.FUN["cut"] = lambda s, m: pieces(ev.text(s), bits(m))


def _term(xs):
    return xs[:-1] if xs and xs[-1] == "" else xs


ev.FUN["cut_terminator"] = lambda s, m: _term(pieces(ev.text(s), bits(m)))


def _incl(s, m):
    out = [""]
    for x, k in zip(s, m):
        out[-1] += x
        if k:
            out.append("")
    return _term(out)


ev.FUN["cut_inclusive"] = lambda s, m: _incl(ev.text(s), bits(m))
ev.FUN["cut_matches"] = lambda s, m: [x for x, k in zip(ev.text(s), bits(m)) if k]


# ------------------------------------------------------------------ texts


def blen(s):
    return len(s.encode("utf-8", "surrogatepass"))


def text_fn(key, name, ty=None, pat=None):
    def f(c):
        a = [c.v(i) for i in range(len(c.args))]
        if pat is not None:
            if chooses(c, pat):
                return None
            a[pat] = pat_arg(c, pat)
            if a[pat].k == "fn":
                return None
        if ty is None:
            return app(name, *a)
        t = mk("app", name, tuple(a))
        T.ENUM_OF.setdefault(t, ty)
        return t

    old = M.get(key)
    if old is None:
        M[key] = f
    else:
        # a test on characters is handled above
        def g(c):
            r = old(c)
            return f(c) if r is None else r

        M[key] = g


def efun(name):
    def d(f):
        ev.FUN[name] = f
        return f

    return d


text_fn("str.rfind", "rfind", OPT, 1)


@efun("rfind")
def _(s, p):
    s, p = ev.text(s), ev.text(p)
    i = s.rfind(p)
    return ev.NONE if i < 0 else ev.some(blen(s[:i]))


text_fn("str.eq_ignore_ascii_case", "eqic", "bool")
M["char.eq_ignore_ascii_case"] = M["u8.eq_ignore_ascii_case"] = lambda c: bval(veq(fold_ascii(c.v(0)), fold_ascii(c.v(1))))


def fold_ascii(x):
    return ite(band(icmp("ge", x, num(65)), icmp("le", x, num(90))), add(x, num(32)), x)


ev.FUN["eqic"] = lambda a, b: int(ev.FUN["to_ascii_lowercase"](a) == ev.FUN["to_ascii_lowercase"](b))
for _k in ("str.is_ascii", "slice.is_ascii", "String.is_ascii"):
    text_fn(_k, "isascii", "bool")
ev.FUN["isascii"] = lambda s: int(all(x < 128 for x in ev.tobytes(s)))
text_fn("str.matches", "matches", None, 1)
text_fn("str.rmatches", "matches", None, 1)


@efun("matches")
def _(s, p):
    s, p = ev.text(s), ev.text(p)
    return [p] * (s.count(p) if p else len(s) + 1)


text_fn("str.match_indices", "match_indices", None, 1)


@efun("match_indices")
def _(s, p):
    s, p = ev.text(s), ev.text(p)
    if not p:
        raise ev.Opaque("match_indices")
    out, i = [], s.find(p)
    while i >= 0:
        out.append((blen(s[:i]), p))
        i = s.find(p, i + len(p))
    return out


text_fn("str.split_terminator", "split_terminator", None, 1)
ev.FUN["split_terminator"] = lambda s, p: _term(ev.FUN["split"](s, p))
text_fn("str.split_inclusive", "split_inclusive", None, 1)


@efun("split_inclusive")
def _(s, p):
    s, p = ev.text(s), ev.text(p)
    if not p:
        raise ev.Opaque("split_inclusive")
    xs = s.split(p)
    return _term([x + p for x in xs[:-1]] + xs[-1:])


text_fn("str.splitn", "splitn", None, 2)


@efun("splitn")
def _(s, n, p):
    s, p = ev.text(s), ev.text(p)
    if not p:
        raise ev.Opaque("splitn")
    return s.split(p, n - 1) if n else []


text_fn("str.rsplitn", "rsplitn", None, 2)


@efun("rsplitn")
def _(s, n, p):
    s, p = ev.text(s), ev.text(p)
    if not p:
        raise ev.Opaque("rsplitn")
    return s.rsplit(p, n - 1)[::-1] if n else []


text_fn("str.replacen", "replacen", None, 1)
ev.FUN["replacen"] = lambda s, p, r, n: ev.text(s).replace(ev.text(p), ev.text(r), n)
text_fn("str.replace", "strreplace", None, 1)


@model("str.trim_ascii", "slice.trim_ascii")
def _(c):
    return app("trim_ascii", c.v(0))


@model("str.trim_ascii_start", "slice.trim_ascii_start")
def _(c):
    return app("trim_ascii_start", c.v(0))


@model("str.trim_ascii_end", "slice.trim_ascii_end")
def _(c):
    return app("trim_ascii_end", c.v(0))


ev.FUN["trim_ascii"] = lambda s: ev.text(s).strip("\t\n\x0c\r ")
ev.FUN["trim_ascii_start"] = lambda s: ev.text(s).lstrip("\t\n\x0c\r ")
ev.FUN["trim_ascii_end"] = lambda s: ev.text(s).rstrip("\t\n\x0c\r ")


@model("String.split_off")
def _(c):
    s, i = c.v(0), c.v(1)
    c.panic_unless("slice", band(icmp("le", i, slen(s)), bool_app("boundary", s, i)), (s, i))
    setv(c, 0, app("sub", s, num(0), i))
    return app("sub", s, i, slen(s))


def bool_app(name, *a):
    t = mk("app", name, a)
    T.ENUM_OF.setdefault(t, "bool")
    return t


@model("Vec.split_off")
def _(c):
    s, i = c.v(0), c.v(1)
    c.panic_unless("slice", icmp("le", i, slen(s)), (s, i))
    setv(c, 0, app("take", s, i))
    return app("skip", s, i)


@model("String.retain")
def _(c):
    s = c.v(0)
    S = app("chars", s)
    if S.k == "sw":
        return None
    r = pure_map(c, S, c.args[1], lambda e, v: ite(v, ch(e), EMPTY))
    if r is None:
        return None
    setv(c, 0, each(*r))
    return UNIT


@model("String.drain")
def _(c):
    x = c.v(0)
    r = MD.rng(c, c.v(1), x)
    if r is None:
        return None
    a, b = r
    good = band(icmp("le", a, b), icmp("le", b, slen(x)), bool_app("boundary", x, a), bool_app("boundary", x, b))
    c.panic_unless("slice", good, (x, a, b))
    setv(c, 0, cat(app("sub", x, num(0), a), app("sub", x, b, slen(x))))
    return app("chars", app("sub", x, a, b))


@model("String.replace_range")
def _(c):
    x = c.v(0)
    r = MD.rng(c, c.v(1), x)
    if r is None:
        return None
    a, b = r
    good = band(icmp("le", a, b), icmp("le", b, slen(x)), bool_app("boundary", x, a), bool_app("boundary", x, b))
    c.panic_unless("slice", good, (x, a, b))
    setv(c, 0, cat(app("sub", x, num(0), a), c.v(2), app("sub", x, b, slen(x))))
    return UNIT


# ------------------------------------------------------------- characters


def char_fn(name, f):
    def g(c):
        x = c.v(0)
        if x.k == "int":
            return T.boolt(bool(f(chr(x.a[0]))))

        def h(y):
            return T.boolt(bool(f(chr(y.a[0])))) if y.k == "int" else bool_app("char_" + name, y)

        return bval(lift(h, x))

    M["char." + name] = g
    ev.FUN["char_" + name] = lambda x: int(bool(f(chr(ev.intv(x)))))


char_fn("is_alphanumeric", lambda x: x.isalpha() or x.isnumeric())
char_fn("is_alphabetic", lambda x: x.isalpha())
char_fn("is_numeric", lambda x: unicodedata.category(x) in ("Nd", "Nl", "No"))
char_fn("is_control", lambda x: unicodedata.category(x) == "Cc")
char_fn("is_lowercase", lambda x: x.islower())
char_fn("is_uppercase", lambda x: x.isupper())

ASCII = {
    "is_ascii": [(0, 127)],
    "is_ascii_alphanumeric": [(48, 57), (65, 90), (97, 122)],
    "is_ascii_alphabetic": [(65, 90), (97, 122)],
    "is_ascii_lowercase": [(97, 122)],
    "is_ascii_uppercase": [(65, 90)],
    "is_ascii_digit": [(48, 57)],
    "is_ascii_hexdigit": [(48, 57), (65, 70), (97, 102)],
    "is_ascii_punctuation": [(33, 47), (58, 64), (91, 96), (123, 126)],
    "is_ascii_graphic": [(33, 126)],
    "is_ascii_control": [(0, 31), (127, 127)],
    "is_ascii_whitespace": [(9, 10), (12, 13), (32, 32)],
}


def _ascii(rs):
    return lambda c: chr_in(c.v(0), rs)


for _n, _rs in ASCII.items():
    for _t in ("char.", "u8."):
        M.setdefault(_t + _n, _ascii(_rs))


@model("char.to_ascii_lowercase", "u8.to_ascii_lowercase")
def _(c):
    return fold_ascii(c.v(0))


@model("char.to_ascii_uppercase", "u8.to_ascii_uppercase")
def _(c):
    x = c.v(0)
    return ite(band(icmp("ge", x, num(97)), icmp("le", x, num(122))), sub(x, num(32)), x)


# ------------------------------------------------------------------ numbers

for _ty in ("usize", "u32", "u64", "u8", "u16", "i32", "i64", "isize"):

    @model(_ty + ".saturating_mul", _ty + ".wrapping_mul")
    def _(c):
        return mul(c.v(0), c.v(1))

    @model(_ty + ".abs_diff")
    def _(c):
        a, b = c.v(0), c.v(1)
        return ite(icmp("ge", a, b), sub(a, b), sub(b, a))

    @model(_ty + ".is_power_of_two")
    def _(c):
        return bool_app("pow2", c.v(0))

    @model(_ty + ".div_ceil")
    def _(c):
        a, b = c.v(0), c.v(1)
        c.panic_unless("div", icmp("ne", b, num(0)), (a, b))
        return app("div", add(a, sub(b, TR)), b)

    @model(_ty + ".checked_div")
    def _(c):
        a, b = c.v(0), c.v(1)
        return ite(icmp("ne", b, num(0)), some(app("div", a, b)), NONE)

    @model(_ty + ".checked_rem")
    def _(c):
        a, b = c.v(0), c.v(1)
        return ite(icmp("ne", b, num(0)), some(app("rem", a, b)), NONE)

    @model(_ty + ".clamp")
    def _(c):
        a, b, d = c.v(0), c.v(1), c.v(2)
        return ite(icmp("lt", a, b), b, ite(icmp("gt", a, d), d, a))

    @model(_ty + ".is_multiple_of")
    def _(c):
        return bval(icmp("eq", app("rem", c.v(0), c.v(1)), num(0)))

for _k in ("usize", "u32", "u64"):

    @model(_k + ".wrapping_sub", _k + ".overflowing_sub#")
    def _(c, bits={"u32": 32}.get(_k, 64)):
        a, b = c.v(0), c.v(1)
        return ite(icmp("ge", a, b), sub(a, b), add(sub(a, b), num(1 << bits)))


M["Ord.clamp"] = M["usize.clamp"]
ev.FUN["pow2"] = lambda x: int(x > 0 and x & (x - 1) == 0)

# -------------------------------------------------------------------- lists


@model("slice.split_at", "slice.split_at_checked#")
def _(c):
    s, i = c.v(0), c.v(1)
    c.panic_unless("slice", icmp("le", i, slen(s)), (s, i))
    return tup(app("take", s, i), app("skip", s, i))


@model("slice.starts_with")
def _(c):
    a, b = c.v(0), c.v(1)
    return bval(band(icmp("le", slen(b), slen(a)), veq(app("take", a, slen(b)), b)))


@model("slice.ends_with")
def _(c):
    a, b = c.v(0), c.v(1)
    return bval(band(icmp("le", slen(b), slen(a)), veq(app("skip", a, sub(slen(a), slen(b))), b)))


@model("slice.swap")
def _(c):
    s, i, j = c.v(0), c.v(1), c.v(2)
    c.panic_unless("index", band(icmp("lt", i, slen(s)), icmp("lt", j, slen(s))), (s, i, j))
    setv(c, 0, app("set", app("set", s, i, app("nth", s, j)), j, app("nth", s, i)))
    return UNIT


@model("slice.rotate_left")
def _(c):
    s, i = c.v(0), c.v(1)
    c.panic_unless("index", icmp("le", i, slen(s)), (s, i))
    setv(c, 0, cat(app("skip", s, i), app("take", s, i)))
    return UNIT


@model("slice.rotate_right")
def _(c):
    s, i = c.v(0), c.v(1)
    c.panic_unless("index", icmp("le", i, slen(s)), (s, i))
    k = sub(slen(s), i)
    setv(c, 0, cat(app("skip", s, k), app("take", s, k)))
    return UNIT


@model("slice.windows")
def _(c):
    c.panic_unless("windows", icmp("gt", c.v(1), num(0)), (c.v(1),))
    return app("windows", c.v(0), c.v(1))


@efun("windows")
def _(x, n):
    x = ev.lst(x)
    return [x[i:i + n] for i in range(len(x) - n + 1)]


@model("slice.repeat")
def _(c):
    return app("listrepeat", c.v(0), c.v(1))


ev.FUN["listrepeat"] = lambda x, n: ev.lst(x) * n


def keyed(c, key, last):
    """extremum by a key: the element of a stable sort by it"""
    S = seq_of(c, c.args[0])
    if S.k == "agg" or S.k == "sw":
        return None
    r = pure_map(c, S, c.args[1], lambda e, v: v)
    if r is None:
        return None
    S, n, v = r
    e = elem(S, n)
    a, b = T.sym("§a"), T.sym("§b")
    if T.occurs(v, idx(e)):
        return None
    o = Q.vcmp(replace(v, {e: a}), replace(v, {e: b}))
    R = app("sort", S, o)
    k = sub(slen(R), TR) if last else num(0)
    return ite(icmp("gt", slen(S), num(0)), some(app("nth", R, k)), NONE)


@model("Iterator.max_by_key")
def _(c):
    return keyed(c, 1, True)


@model("Iterator.min_by_key")
def _(c):
    return keyed(c, 1, False)


@model("Iterator.rposition")
def _(c):
    S = seq_of(c, c.args[0])
    if S.k == "agg":
        return None
    R = app("rev", S)
    r = pure_map(c, R, c.args[1], lambda e, v: bval(bnorm(v)))
    if r is None:
        return None
    f = Q.find_pair(r[0], num(r[1]), r[2])
    return bind_opt(f, lambda x: some(sub(sub(slen(S), TR), field(x, 1, "tuple"))), NONE)


@model("DoubleEndedIterator.rfind", "Iterator.rfind")
def _(c):
    S = seq_of(c, c.args[0])
    if S.k == "agg":
        return None
    r = pure_map(c, app("rev", S), c.args[1], lambda e, v: bval(bnorm(v)))
    return r and app("find", r[0], num(r[1]), r[2])


@model("Iterator.eq")
def _(c):
    a, b = seq_of(c, c.args[0]), seq_of(c, c.args[1])
    if a.k == "agg" or b.k == "agg":
        return None
    return bval(veq(a, b))


@model("Iterator.ne")
def _(c):
    a, b = seq_of(c, c.args[0]), seq_of(c, c.args[1])
    if a.k == "agg" or b.k == "agg":
        return None
    return bval(bnot(veq(a, b)))


@model("Iterator.cmp")
def _(c):
    a, b = seq_of(c, c.args[0]), seq_of(c, c.args[1])
    if a.k == "agg" or b.k == "agg":
        return None
    return Q.vcmp(a, b)


@model("Iterator.product")
def _(c):
    S = seq_of(c, c.args[0])
    return app("product", S) if S.k != "agg" else None


@efun("product")
def _(x):
    r = 1
    for y in ev.lst(x):
        r *= y
    return r


@model("Iterator.inspect")
def _(c):
    return deep(c, c.args[0])


@model("Iterator.size_hint")
def _(c):
    S = seq_of(c, c.args[0])
    return tup(slen(S), some(slen(S))) if S.k != "agg" else None


@model("DoubleEndedIterator.nth_back")
def _(c):
    S = seq_of(c, c.args[0])
    if S.k == "agg":
        return None
    i = c.v(1)
    n = slen(S)
    k = sub(sub(n, TR), i)
    has = icmp("gt", n, i)
    setv(c, 0, ite(has, app("take", S, k), EMPTY))
    return ite(has, some(app("nth", S, k)), NONE)


@model("iter.repeat_n")
def _(c):
    return app("listrepeat", one(deep(c, c.args[0])), c.v(1))


@model("Vec.extend_from_within")
def _(c):
    x = c.v(0)
    r = MD.rng(c, c.v(1), x)
    if r is None:
        return None
    a, b = r
    c.panic_unless("slice", band(icmp("le", a, b), icmp("le", b, slen(x))), (x, a, b))
    setv(c, 0, cat(x, app("take", app("skip", x, a), sub(b, a))))
    return UNIT


@model("VecDeque.pop_front")
def _(c):
    x = c.v(0)
    ne = icmp("gt", slen(x), num(0))
    setv(c, 0, ite(ne, app("skip", x, TR), EMPTY))
    return ite(ne, some(app("nth", x, num(0))), NONE)


@model("VecDeque.pop_back")
def _(c):
    x = c.v(0)
    n = slen(x)
    ne = icmp("gt", n, num(0))
    setv(c, 0, ite(ne, app("take", x, sub(n, TR)), EMPTY))
    return ite(ne, some(app("nth", x, sub(n, TR))), NONE)


@model("VecDeque.push_front")
def _(c):
    setv(c, 0, cat(one(deep(c, c.args[1])), c.v(0)))
    return UNIT


for _n in ("iter", "into_iter", "clear", "contains", "extend", "get", "with_capacity", "drain", "truncate", "insert", "remove"):
    if "Vec." + _n in M:
        M.setdefault("VecDeque." + _n, M["Vec." + _n])


# ----------------------------------------------------- iterators of the crate


def lazy(c, name, *fields):
    x = c.args[0]
    if x.k != "ref":
        x = deep(c, x)
    T.STRUCT_ARITY[name] = 1 + len(fields)
    return agg(name, 0, (x,) + fields)


def lazily(key, name, fields):
    old = M.get(key)

    def f(c):
        x = deep(c, c.args[0])
        if x.k == "agg" and (local_iter(c, c.args[0]) or x.a[0] in LAZY or x.a[0] == MD.ITERMUT and name != "FlattenIter"):
            return lazy(c, name, *fields(c))
        return old(c) if old else None

    M[key] = f


LAZY = ("MapIter", "EnumIter", "TakeWhileIter", "MapWhileIter", "TakeIter", "FilterIter", "FilterMapIter", "SkipIter", "FlattenIter", "ZipIter")
lazily("Iterator.map", "MapIter", lambda c: (c.args[1],))
lazily("Iterator.enumerate", "EnumIter", lambda c: (num(0),))
lazily("Iterator.take_while", "TakeWhileIter", lambda c: (c.args[1], F))
lazily("Iterator.map_while", "MapWhileIter", lambda c: (c.args[1],))
lazily("Iterator.take", "TakeIter", lambda c: (c.v(1),))
lazily("Iterator.skip", "SkipIter", lambda c: (c.v(1),))
lazily("Iterator.filter", "FilterIter", lambda c: (c.args[1],))
lazily("Iterator.flatten", "FlattenIter", lambda c: (item_enum(c),))
lazily("Iterator.filter_map", "FilterMapIter", lambda c: (c.args[1],))


_zip = M["Iterator.zip"]


def m_zip(c):
    x = deep(c, c.args[0])
    if x.k == "agg" and x.a[0] == MD.ITERMUT:
        S = MD.seq_of(c, c.args[1])
        if S.k == "agg":
            return None
        r, pos = x.a[2]
        T.STRUCT_ARITY["ZipIter"] = 4
        return agg("ZipIter", 0, (x, S, num(0), slen(app("take", app("skip", deep(c, r), pos), slen(S)))))
    return _zip(c)


M["Iterator.zip"] = m_zip


def item_enum(c):
    """whether the items are results (0) or options (1)"""
    x = deep(c, c.args[0])
    if x.a[0] in LAZY:
        return UNIT
    fs = c.I.facts
    g = fs.find_impl("std::iter::Iterator", "next", x.a[0]) or next((f for s, ta, f in fs.impls.get(("std::iter::Iterator", "next"), ()) if s.split("<")[0] == x.a[0]), None)
    if g is None:
        return UNIT
    s = fs.ts(g["body"]["locals"][0])
    return num(0) if "Option<std::result::Result<" in s else num(1) if "Option<std::option::Option<" in s else UNIT


_next = MD.m_next


def m_next(c):
    it = c.v(0)
    if it.k == "agg" and it.a[0] in LAZY:
        return lazy_next(c, it)
    return _next(c)


def lazy_next(c, it):
    I = c.I
    name = it.a[0]
    n = len(it.a[2])
    base = addr(c, 0)
    if base.k != "ref":
        return None

    def at(i):
        return mk("ref", base.a[0], base.a[1] + (("f", i, name, n),))

    def step():
        r = at(0)
        x = I.deref(c.st, r)
        return MD.next_at(c, c.st, x if x.k == "ref" else r)

    def call(f, x, tag):
        return I.call(c.st, f, [x], c.tyenv, None, None, (c.site, tag), c.at)

    if name == "MapIter":
        return MD.match_opt(c, step(), lambda x: some(call(it.a[2][1], x, "mapf")), lambda: NONE)
    if name == "EnumIter":
        k = it.a[2][1]
        o = step()
        I.write_ref(c.st, at(1), add(k, TR))
        return bind_opt(o, lambda x: some(tup(k, x)), NONE)
    if name == "ZipIter":
        src, B, k, n = it.a[2]
        r, pos = src.a[2]
        lt = icmp("lt", k, n)
        rr = lift(lambda y: mk("ref", y.a[0], y.a[1] + (("i", add(pos, k)),)) if y.k == "ref" else BOT, r)
        I.write_ref(c.st, at(2), ite(lt, add(k, TR), k))
        return ite(lt, some(tup(rr, app("nth", B, k))), NONE)
    if name == "MapWhileIter":
        return MD.match_opt(c, step(), lambda x: deep(c, call(it.a[2][1], x, "mwf")), lambda: NONE)
    if name == "TakeWhileIter":
        f, done = it.a[2][1], it.a[2][2]

        def go():
            def keep(x):
                v = bnorm(call(f, x, "twf"))
                I.write_ref(c.st, at(2), bval(bnot(v)))
                return ite(v, some(x if x.k == "ref" else deep(c, x)), NONE)

            return MD.match_opt(c, step(), keep, lambda: NONE)

        d = bnorm(done)
        if d is F:
            return go()
        return MD.fork(c, [(d, lambda: NONE), (bnot(d), go)])
    if name == "TakeIter":
        k = it.a[2][1]
        z = icmp("eq", k, num(0))

        def go():
            I.write_ref(c.st, at(1), sub(k, TR))
            return step()

        return MD.fork(c, [(z, lambda: NONE), (bnot(z), go)])
    if name == "SkipIter":
        k = it.a[2][1]
        if k.k != "int" or k.a[0] > 4:
            return None
        for _ in range(k.a[0]):
            step()
        I.write_ref(c.st, at(1), num(0))
        return step()
    if name in ("FilterIter", "FilterMapIter", "FlattenIter"):
        f = it.a[2][1]
        ret = ("filterret", I.fid_of(I.stack), c.site)
        c.st.mem[ret] = NONE
        args = c.args

        def test(x):
            v = deep(c, x if name == "FlattenIter" else call(f, x, "flf"))
            if name == "FlattenIter":
                if f is num(0):
                    k = bnorm(is_ok(v))
                    out = some(vfield(T.under(k, v) if v.k == "sw" else v, 0, 0))
                elif f is num(1):
                    k, out = bnorm(is_some(v)), v
                else:
                    raise Unsupported("flatten")
            elif name == "FilterIter":
                k, out = bnorm(v), some(x if x.k == "ref" else deep(c, x))
            else:
                k, out = bnorm(is_some(v)), v
            m1, m2 = dict(c.st.mem), dict(c.st.mem)
            r = []
            if k is not TR:
                r.append(("back", band(c.st.pc, bnot(k)), m1))
            if k is not F:
                m2[ret] = T.under(k, out) if out.k == "sw" else out
                r.append(("stop", band(c.st.pc, k), m2))
            return r

        inner = I.deref(c.st, at(0))
        outs = MD.run_loop(c, inner if inner.k == "ref" else at(0), test, "filter")
        pc, mem = I.join([(p, m) for l, p, m in outs])
        if pc is F:
            c.st.pc = F
            return BOT
        c.st.pc, c.st.mem = pc, mem
        return mem.pop(ret)
    return None


_run_loop = MD.run_loop


def run_loop(c, it, step, name):
    """consuming a filtered iterator: the test is part of the step"""
    if it.k == "agg" and it.a[0] == "FilterIter" and it.a[2][0].k != "ref":
        pred = it.a[2][1]

        def tested(x):
            v = bnorm(deep(c, c.I.call(c.st, pred, [x], c.tyenv, None, None, (c.site, "flt"), c.at)))
            pc, st = c.st.pc, c.st
            r = []
            if v is not TR:
                r.append(("back", band(pc, bnot(v)), dict(st.mem)))
            if v is not F:
                s2 = State(TR, dict(st.mem), band(st.ctx, pc, v))
                c.st = s2
                try:
                    for label, cond, mem in step(x):
                        r.append((label, band(pc, v, cond), mem))
                finally:
                    c.st = st
            return r

        return run_loop(c, it.a[2][0], tested, name)
    return _run_loop(c, it, step, name)


MD.run_loop = run_loop
MD.m_next = m_next
M["Iterator.next"] = m_next


@model("HashMap.get_key_value", "BTreeMap.get_key_value")
def m_get_key_value(c):
    m, k = c.v(0), c.v(1)
    return bind_opt(app("map_get", m, k), lambda v: some(tup(k, v)), NONE)


# ------------------------------------------- searches whose test has effects


def search_loop(c, name):
    """any, all, find, find_map, position with a test that changes state"""
    I = c.I
    it = deep(c, c.args[0])
    f = c.args[1]
    ret = ("searchret", I.fid_of(I.stack), c.site)
    pos = ("searchpos", I.fid_of(I.stack), c.site)
    none = {"any": F, "all": TR}.get(name, NONE)
    c.st.mem[ret] = none
    c.st.mem[pos] = num(0)

    def test(x):
        v = deep(c, I.call(c.st, f, [x], c.tyenv, None, None, (c.site, "srch"), c.at))
        i = c.st.mem[pos]
        if name == "find_map":
            k = bnorm(is_some(v))
            out = T.under(k, v) if v.k == "sw" else v
        else:
            k = bnorm(v)
            if name == "all":
                k = bnot(k)
            out = {"any": TR, "all": F}.get(name)
            if out is None:
                out = some(i) if name == "position" else some(x if x.k == "ref" else deep(c, x))
        m1, m2 = dict(c.st.mem), dict(c.st.mem)
        r = []
        if k is not TR:
            m1[pos] = add(i, TR)
            r.append(("back", band(c.st.pc, bnot(k)), m1))
        if k is not F:
            m2[ret] = out
            r.append(("stop", band(c.st.pc, k), m2))
        return r

    outs = MD.run_loop(c, it, test, name)
    pc, mem = I.join([(p, m) for l, p, m in outs])
    if pc is F:
        c.st.pc = F
        return BOT
    c.st.pc, c.st.mem = pc, mem
    mem.pop(pos, None)
    return mem.pop(ret)


def search(key):
    old = M[key]
    name = key.split(".")[1]

    def f(c):
        S = seq_of(c, c.args[0])
        mem = dict(c.st.mem)
        r = old(c)
        if r is None:
            c.st.mem = mem
            r = search_loop(c, name)
        # what is left of the iterator is not tracked
        if c.args[0].k == "ref":
            setv(c, 0, mk("app", "?rest", (S,)))
        return r

    M[key] = f


for _k in ("any", "all", "find", "find_map", "position"):
    search("Iterator." + _k)


@model("Vec.resize_with")
def m_resize_with(c):
    v, n = c.v(0), c.v(1)
    x = deep(c, c.callf(c.args[2]))
    c.I.event("alloc", c.st, TR, (c.key, n), c.at)
    l = slen(v)
    more = each(app("range", num(0), sub(n, l)), 0, one(x))
    setv(c, 0, ite(icmp("le", n, l), app("sub", v, num(0), n), cat(v, more)))
    return UNIT


@model("ToOwned.clone_into")
def m_clone_into(c):
    setv(c, 1, c.v(0))
    return UNIT


@model("Clone.clone_from", "String.clone_from", "Vec.clone_from", "Option.clone_from")
def m_clone_from(c):
    setv(c, 0, c.v(1))
    return UNIT


@model("Error.kind")
def m_errkind(c):
    d = c.I.facts.adts.get("std::io::ErrorKind")
    if d is None:
        return None
    names = [v["name"] for v in d["variants"]]
    r = app("errkind", c.v(0), *[num(names.index(n)) for n in ("InvalidData", "NotFound", "UnexpectedEof")])
    T.hint(r, "std::io::ErrorKind")
    return r


@model("Result.or")
def m_res_or(c):
    return MD.match_res(c, c.d1(0), ok, lambda e: c.I.deref(c.st, c.args[1]))
