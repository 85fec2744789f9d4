"""Free element variables of terms."""
import terms as T

_fv = {}


def fv(t):
    """free element variables and accumulators of a term"""
    r = _fv.get(t)
    if r is not None:
        return r
    k, a = t.k, t.a
    if k == "elem":
        r = frozenset([t]) | fv(a[0])
    elif k == "sym" and a[0][:1] == "§":
        r = frozenset([t])
    elif k in ("int", "flt", "sym", "bot", "phi"):
        r = frozenset()
    elif k == "seq":
        r = frozenset()
        for it in a[0]:
            if it[0] == "L":
                continue
            if it[0] == "F":
                b = fv(it[3]) - {T.elem(it[1], it[2])}
                r |= b | fv(it[1])
            else:
                r |= fv(it[1])
    elif k == "app":
        r = frozenset()
        if a[0] in BINDERS:
            S, n = a[1][0], a[1][1]
            e = T.elem(S, n.a[0])
            bpos = BINDERS[a[0]]
            for i, x in enumerate(a[1]):
                y = fv(x)
                if i in bpos:
                    y = y - {e}
                    if a[0] in ("fold", "prefold"):
                        y = frozenset(z for z in y if z.k != "sym" or not z.a[0].startswith("§acc%d." % a[1][4].a[0]))
                r |= y
        elif a[0] in ("while", "wany"):
            b = "§acc%d." % a[1][3].a[0]
            r = fv(a[1][0])
            for x in (a[1][1], a[1][2], a[1][4]):
                r |= frozenset(z for z in fv(x) if z.k != "sym" or not z.a[0].startswith(b))
        elif a[0] in ("sort", "dedupby"):
            r = fv(a[1][0]) | (fv(a[1][1]) - {SA, SB})
        else:
            for x in a[1]:
                r |= fv(x)
    else:
        r = frozenset()
        for x in T.args_terms(t):
            r |= fv(x)
    _fv[t] = r
    return r


BINDERS = {"find": (2,), "sum": (2,), "presum": (2,), "pre": (2,), "anybefore": (2,), "fold": (3,), "prefold": (3,)}
SA, SB = T.mk("sym", "§a"), T.mk("sym", "§b")


_sl = {}


def scope_levels(t, e):
    """levels of the binders over the list of e in whose body e is free"""
    if e not in fv(t):
        return frozenset()
    key = (t, e)
    r = _sl.get(key)
    if r is not None:
        return r
    k, a = t.k, t.a
    r = set()
    S = e.a[0]
    if k == "seq":
        for it in a[0]:
            if it[0] == "F":
                if it[1] is S and e in fv(it[3]) and it[2] != e.a[1]:
                    r.add(it[2])
                r |= scope_levels(it[3], e)
                r |= scope_levels(it[1], e)
            elif it[0] != "L":
                r |= scope_levels(it[1], e)
    else:
        if k == "app" and a[0] in BINDERS and a[1][0] is S:
            if any(e in fv(a[1][i]) for i in BINDERS[a[0]]):
                r.add(a[1][1].a[0])
        for x in T.args_terms(t):
            r |= scope_levels(x, e)
    r = frozenset(r)
    _sl[key] = r
    return r


def bound_level(S, *terms):
    """first level for a binder over S around the terms (bound: elem(S, -1))"""
    e = T.elem(S, -1)
    used = set()
    for t in terms:
        for x in fv(t):
            if x.k == "elem" and x.a[0] is S:
                used.add(x.a[1])
        used |= scope_levels(t, e)
    n = 0
    while n in used:
        n += 1
    return n
