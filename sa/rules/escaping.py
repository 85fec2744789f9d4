"""Escaping and unescaping (C01, C02).

The escaping function is summarised as one code word per character; the
unescaping function as a loop over the remaining characters. Decoding is
shown to invert every code word with any text behind it, so by induction
on the text it inverts escaping of every text.
"""
import ev
from rules.common import *
from loops import has_any
from interp import prune

LETTERS = "\"nrtbvf\\"


class Decoder(object):
    """unescape: state before and after one round of its loop"""

    def __init__(self, c):
        lib = c.lib
        self.fn = c.need(lib.unesc, "unescape")
        self.t = sym("§§text")
        self.s = lib.summary(self.fn, args=[self.t], inline=(self.fn,), key="inline")
        self.ret = self.s.ret

    def loop(self):
        ls = [l for l in self.s.I.loops if l.kind == "opaque" and l.fn is not None]
        if len(ls) != 1:
            raise Skip("no single decoding loop")
        rec = ls[0]
        r = [x for x in rec.phis if x[1] is app("chars", self.t)]
        a = [x for x in rec.phis if x[1] is EMPTY]
        if len(r) != 1 or len(a) != 1:
            raise Skip("loop state not recognised")
        self.rec, self.r, self.a = rec, r[0], a[0]
        rest = {x[0] for x in rec.phis if x is not self.r and x is not self.a}
        for t in (self.r[2], self.a[2], bval(rec.cont)):
            if has_any(t, rest, {}):
                raise Skip("loop state not recognised")

    def round(self, chars, cond):
        """(continues, remaining, decoded) with these characters first"""
        R, A = sym("§§rest"), sym("§§done")
        m = {self.r[0]: cat(*([one(x) for x in chars] + [R])), self.a[0]: A}
        q = lambda v: prune(cond, T.replace(v, m))
        return q(bval(self.rec.cont)), q(self.r[2]), q(self.a[2]), R, A

    def end(self, chars, cond, rest=True):
        """result of the function when left with these characters"""
        R, A = sym("§§rest"), sym("§§done")
        L = [one(x) for x in chars] + ([R] if rest else [])
        m = {self.rec.final[self.r[0]]: cat(*L) if L else EMPTY, self.rec.final[self.a[0]]: A}
        has = bnot(bnorm(Q.is_some(app("split_once", self.t, lit("\\")))))
        return prune(band(cond, bnot(has)), T.replace(self.ret, m)), A

    def cont(self, chars, cond, rest=True):
        R = sym("§§rest")
        L = [one(x) for x in chars] + ([R] if rest else [])
        v = T.replace(bval(self.rec.cont), {self.r[0]: cat(*L) if L else EMPTY})
        return prune(cond, v)


def code_words(E, t):
    """[(condition on the character, code word as list of characters)]"""
    its = T.items(E)
    if len(its) != 1 or its[0][0] != "F" or its[0][1] is not app("chars", t):
        raise Skip("escaping is not one code word per character")
    S, n, B = its[0][1:]
    e = elem(S, n)
    c = sym("§§char")
    B = T.replace(B, {e: c})
    B = T.expand(B)
    out = []

    def go(v, cond):
        if v.k == "sw":
            if v.a[0] is not c:
                raise Skip("code word depends on more than its character")
            for cs, x in zip(v.a[2], v.a[3]):
                lo, hi = cs
                k = TR
                if lo > T.NEG:
                    k = band(k, icmp("ge", c, num(lo)))
                if hi < T.POS:
                    k = band(k, icmp("le", c, num(hi)))
                go(x, band(cond, k))
            return
        w = []
        for it in T.items(v):
            if it[0] == "L":
                w += [num(ord(x)) for x in it[1]]
            elif it[0] == "C" and it[1] is c:
                w.append(c)
            else:
                raise Skip("code word not recognised")
        out.append((cond, w))

    go(B, TR)
    own = [k for k, w in out if len(w) == 1 and w[0] is c]
    out = [(k, w) for k, w in out if not (len(w) == 1 and w[0] is c)]
    if own:
        out.append((bor(*own), [c]))
    return c, out


def is_str(cond, c):
    """the single character of a class, or None"""
    for x in '"\n\r\t\x11\x08\x12\\':
        if band(cond, bnot(icmp("eq", c, num(ord(x))))) is F:
            return x
    return None


SPECIAL = "\"\n\r\t\x11\x08\x12\\nrtbvfa 0u\x0b\x0cé漢\x00x'/#"


def gtext(g):
    n = g.r.choice((0, 1, 1, 2, 2, 3, 4, 6, 9))
    if g.r.random() < 0.02:
        # around the sizes named in the code
        big = [x for x in g.ints if 16 < x < 10000 and x not in range(32, 127)]
        if big:
            n = g.r.choice(big) + g.r.choice((0, 1, 2))
    return "".join(g.r.choice(SPECIAL) if g.r.random() < 0.9 else chr(g.r.choice((0x1F600, 7, 0x1B, 0x7F, 0xA0, 0x2028, 0xFEFF))) for _ in range(n))


def text_of(v):
    return ev.text(v)


def c01(c):
    lib = c.lib
    esc = c.need(lib.esc, "escape")
    D = Decoder(c)
    t = sym("§§plain")
    E = lib.summary(esc, args=[t], inline=(esc,), key="inline")
    try:
        ch, words = code_words(E.ret, t)
        D.loop()
        proved = True
    except Skip as x:
        proved = False
        why = str(x)
    left = []
    if proved:
        for cond, w in words:
            x = is_str(cond, ch)
            nm = "character %r" % x if x is not None else "characters other than the special ones"
            good = x is not None or (len(w) == 1 and w[0] is ch)
            k, r, a, R, A = D.round(w, cond)
            want = seq(list(T.items(A)) + [("L", x) if x is not None else ("C", ch)])
            good = bnorm(k) is TR and r is R and (a is want or prune(cond, want) is a)
            (c.record("unescaping reads the code word of %s back" % nm, D.fn, "proved") if good else left.append(nm))
            raw = False
            for i, y in enumerate(w):
                if y.k == "int":
                    raw |= chr(y.a[0]) in "\n\r" or (y.a[0] == 34 and (i == 0 or w[i - 1] is not num(92)))
                else:
                    raw |= any(band(cond, icmp("eq", y, num(ord(z)))) is not F for z in '"\n\r')
            (c.record("the code word of %s has no raw quote or line break" % nm, esc, "proved") if not raw else left.append(nm + " (raw)"))
        v, A = D.end([], TR, rest=False)
        if bnorm(D.cont([], TR, rest=False)) is F and v is ok(A):
            c.record("unescaping ends with what was read when nothing is left", D.fn, "proved")
        else:
            left.append("end")
        none = bnot(bnorm(Q.is_some(app("split_once", D.t, lit("\\")))))
        f = prune(none, D.ret)
        if none is not F and (f is ok(D.t) or not differs(D, none)):
            c.record("a text without escapes is its own unescaping", D.fn, "proved")
        else:
            left.append("text without escapes")
        why = "not shown for: " + ", ".join(left[:4])
    if left or not proved:
        un = lambda s: ev.Eval({D.t: text_of(s)})(D.ret)
        rt = mk("app", "§U", (E.ret,))
        c.same("unescape(escape(s)) is s", D.fn, rt, ok(t), {t: gtext}, funs={"§U": un}, n=3000, why=why)
        raw = mk("app", "§raw", (E.ret,))
        c.same("escaped text has no raw quote or line break", esc, raw, F, {t: gtext}, funs={"§raw": lambda s: has_raw(text_of(s))}, n=3000, why=why)


def has_raw(s):
    b = False
    for x in s:
        if x in "\n\r" or (x == '"' and not b):
            return 1
        b = x == "\\" and not b
    return 0


def differs(D, none):
    """the branch for texts without escapes also goes through the loop"""
    k, r, a, R, A = D.round([sym("§§char")], bnot(icmp("eq", sym("§§char"), num(92))))
    return not (bnorm(k) is TR and r is R)


def bad_escape(s):
    """the text has a backslash that starts no escape"""
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1:i + 2] not in tuple(LETTERS):
                return True
            i += 2
        else:
            i += 1
    return False


def okness(a, b):
    return a.v == b.v


def c02(c):
    D = Decoder(c)
    left = []
    try:
        D.loop()
        x = sym("§§char")
        letter = bor(*[icmp("eq", x, num(ord(l))) for l in LETTERS])
        good = bnorm(D.cont([num(92)], TR, rest=False)) is F and only_err(D.end([num(92)], TR, rest=False)[0])
        (c.record("a backslash at the end is an error", D.fn, "proved") if good else left.append("end"))
        no = bnot(letter)
        good = bnorm(D.cont([num(92), x], no)) is F and only_err(D.end([num(92), x], no)[0])
        (c.record("a backslash before any other character is an error", D.fn, "proved") if good else left.append("other characters"))
        for l in LETTERS:
            k, r, a, R, A = D.round([num(92), num(ord(l))], TR)
            (c.record("a backslash before %r is accepted" % l, D.fn, "proved") if bnorm(k) is TR and r is R else left.append(l))
        k, r, a, R, A = D.round([x], bnot(icmp("eq", x, num(92))))
        (c.record("any other character is accepted", D.fn, "proved") if bnorm(k) is TR and r is R else left.append("characters"))
        v, A = D.end([], TR, rest=False)
        (c.record("nothing left is accepted", D.fn, "proved") if bnorm(D.cont([], TR, rest=False)) is F and v.k == "agg" and v.a[1] == 0 else left.append("nothing"))
        none = bnot(bnorm(Q.is_some(app("split_once", D.t, lit("\\")))))
        v = prune(none, D.ret)
        (c.record("a text without backslash is accepted", D.fn, "proved") if v.k == "agg" and v.a[1] == 0 or not differs(D, none) else left.append("no backslash"))
        why = "not shown for: " + ", ".join(left[:4])
    except Skip as x:
        left, why = ["all"], str(x)
    if left:
        spec = mk("app", "§spec", (D.t,))
        c.same(
            "unescaping fails exactly for malformed escapes", D.fn, D.ret, spec, {D.t: gtext}, agree=okness, n=3000,
            funs={"§spec": lambda s: ev.err(0) if bad_escape(text_of(s)) else ev.ok(0)}, why=why,
        )
    c.part("every string field is unescaped or the entry refused", fields, c)
    from rules import poread

    c.part("reading a PO", poread.c02_reading, c)


def only_err(v):
    return v is not BOT and all(l.k == "agg" and l.a[0] == RES and l.a[1] == 1 for l in T.leaves(v)) and bool(T.leaves(v))


STRINGS = ("msgid", "msgstr", "msgid_plural", "msgctxt", "previous_msgid", "previous_msgid_plural", "previous_msgctxt")


def unescaped_role(c):
    """function turning an entry with escaped fields into one without"""
    lib = c.lib
    for i, f in lib.facts.fns.items():
        b = f.get("body")
        if not b or b["argc"] != 1 or f.get("kind") == "Closure":
            continue
        if not norm(lib.facts.ts(b["locals"][0])).startswith("std::result::Result<entry::poentry::POEntry, errors::EscapingError>"):
            continue
        return i
    return None


def unesc_of(s):
    t = mk("app", "unescape", (s,))
    T.ENUM_OF.setdefault(t, RES)
    return t


def fields(c):
    """for each field: the entry is refused exactly when one is malformed"""
    lib = c.lib
    fn = c.need(unescaped_role(c), "function unescaping an entry")
    s = lib.summary(fn)
    e = list(s.inputs)[0]
    g = lambda n: lib.f(e, "POEntry", n)
    bad = lambda v: bnot(bnorm(Q.is_ok(unesc_of(v))))
    fails = bad(g("msgid"))
    for n in STRINGS[1:]:
        fails = bor(fails, bnorm(opt(g(n), F, lambda v: bval(bad(v)))))
    fails = bor(fails, exists(g("msgstr_plural"), bad))
    c.same("an entry is refused exactly when one of its string fields is malformed", fn, bval(bnot(bnorm(Q.is_ok(s.ret)))), bval(fails), {e: lambda gg: entry_gen(gg, lib)})


def entry_gen(g, lib):
    v = g.ty(lib.ty_of("POEntry"))
    for i, n in enumerate(lib.facts.fields(lib.adt("POEntry"))):
        if n in STRINGS and g.r.random() < 0.4:
            x = gtext(g)
            v = setfield(v, i, x if n == "msgid" else ev.some(x))
    return v


def setfield(v, i, x):
    l = list(v)
    l[i] = x
    return tuple(l)
