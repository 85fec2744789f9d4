"""Specification vocabulary shared by the rules."""
import terms as T
import seqs as Q
from lib import *  # noqa

MAGIC = 0x950412DE
MAGIC_SWAPPED = 0xDE120495
FUZZY = lit("fuzzy")


def opt(v, none, f):
    return discr_switch(v, OPT, (none, f(vfield(v, 1, 0))))


def or_empty(v):
    return opt(v, EMPTY, lambda x: x)


def is_some(v):
    return opt(v, F, lambda x: TR)


def veq(a, b):
    return bnorm(Q.veq(a, b))


def empty(s):
    return icmp("eq", slen(s), num(0))


def bind(S, t):
    """(level, t) with the element elem(S, -1) of t bound"""
    k = Q.bound_level(S, t)
    return k, T.replace(t, {elem(S, -1): elem(S, k), idx(elem(S, -1)): idx(elem(S, k))})


def exists(S, C):
    """some element satisfies C(element)"""
    return bnorm(Q.is_some(first(S, C)))


def first(S, C):
    k, t = bind(S, bval(C(elem(S, -1))))
    return app("find", S, num(k), t)


def filtered(S, C, f=lambda e: e):
    return over(S, lambda e: ite(C(e), one(f(e)), EMPTY))


def over(S, body):
    k, t = bind(S, body(elem(S, -1)))
    return each(S, k, t)


def contains(S, x):
    return exists(S, lambda e: veq(e, x))


class PO(object):
    """views on the public structs"""

    def __init__(self, lib):
        self.lib = lib

    def __getattr__(self, name):
        lib = self.lib

        def get(v, f):
            return lib.f(v, name, f)

        return get


def po_translated(lib, e):
    g = lambda n: lib.f(e, "POEntry", n)
    pl = g("msgstr_plural")
    has = opt(
        g("msgstr"),
        bval(band(bnot(empty(pl)), bnot(exists(pl, empty)))),
        lambda s: bval(bnot(empty(s))),
    )
    return band(bnot(g("obsolete")), bnot(contains(g("flags"), FUZZY)), has)


def to_mo(lib, e):
    g = lambda n: lib.f(e, "POEntry", n)
    return lib.build("MOEntry", **{n: g(n) for n in ("msgid", "msgstr", "msgid_plural", "msgstr_plural", "msgctxt")})


def eot_key(lib, e, ty="MOEntry"):
    return cat(opt(lib.f(e, ty, "msgctxt"), EMPTY, lambda c: cat(c, lit("\x04"))), lib.f(e, ty, "msgid"))


def joined(S, sep):
    return Q.join(S, sep)
