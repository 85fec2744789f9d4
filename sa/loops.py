"""Loop summaries: values after a loop from the values after one iteration."""
import terms as T
import seqs as Q
from terms import (
    BOT, F, TR, EMPTY, OPT, NEG, POS, mk, num, agg, band, bor, bnot, bnorm, bval, merge, lift,
    leaves, items, seq, cat, elem, each, replace, occurs, subterms, ite, add, sub, mul, icmp, app,
    switch, tup, under, bunder,
)
from seqs import slen, idx, isapp


def has_any(t, S, memo):
    """t contains one of the terms in S"""
    r = memo.get(t)
    if r is None:
        r = t in S or any(has_any(x, S, memo) for x in T.args_terms(t))
        memo[t] = r
    return r


def rep(t, m):
    return replace(t, m)


def brep(p, m):
    return bnorm(rep(bval(p), m)) if p.k == "sw" else p


class Sub(object):
    """substitution applied to many terms"""

    def __init__(self, m):
        self.m = {k: v for k, v in m.items() if k is not v}
        self.keys = set(self.m)
        self.memo = {}

    def __call__(self, t):
        if not self.m or not has_any(t, self.keys, self.memo):
            return t
        return rep(t, self.m)

    def b(self, p):
        if p.k != "sw":
            return p
        return bnorm(self(bval(p)))

    def data(self, d):
        if isinstance(d, T.T):
            return self(d)
        if isinstance(d, tuple):
            return tuple(self.data(x) for x in d)
        return d


def find_main(rec):
    """(kind, phi entry, S, exhaustion test)"""
    phis = [p for p, *_ in rec.phis]
    pset = set(phis)
    # sequences consumed one by one
    for ent in rec.phis:
        p, v0, nx = ent[:3]
        n = under(rec.cont, nx)
        if isapp(n, "skip") and n.a[1][0] is p and n.a[1][1] is TR:
            if band(rec.cont, icmp("eq", slen(p), num(0))) is F:
                return "seq", ent, v0, None
    for ent in rec.phis:
        p, v0, nx = ent[:3]
        n = under(rec.cont, nx)
        if sub(n, p) is not TR:
            continue
        N = range_end(rec, ent, pset)
        if N is not None and band(rec.cont, icmp("ge", p, N)) is F:
            return "count", ent, range_of(v0, N), N
        for N in bounds(rec.cont, p, pset):
            if band(rec.cont, icmp("ge", p, N)) is F:
                return "count", ent, range_of(v0, N), N
    return None


def range_end(rec, ent, pset):
    """end of the range the counter is the start of"""
    c, path = ent[3:5]
    if not path or path[-1][0] != "std::ops::Range" or path[-1][2] != 0:
        return None
    v = rec.mem0.get(c)
    if v is None:
        return None
    for tag, var, i, enum in path[:-1] + (path[-1][:2] + (1, False),):
        v = T.vfield(v, var, i) if enum else T.field(v, i, tag)
    return None if v is BOT or has_any(v, pset, {}) else v


def bounds(pc, p, pset):
    out = []
    seen = set()

    def go(x):
        if x in seen or x.k != "sw":
            return
        seen.add(x)
        a = x.a[0]
        if x.a[1] == "i":
            if a is p:
                for c in x.a[2]:
                    if c[1] < POS:
                        out.append(num(c[1] + 1))
            elif a.k == "lin":
                d = dict(a.a[1])
                k = d.pop(p, 0)
                if k in (1, -1) and not any(has_any(t, pset, {}) for t in d):
                    # a = c + k*p + R ; p < N where N = -(c+R)/k + off
                    R = T.mklin(a.a[0], d)
                    base = T.neg(R) if k == 1 else R
                    for c in x.a[2]:
                        for b in c:
                            if NEG < b < POS:
                                out.append(add(base, num(b if k == 1 else -b)))
                                out.append(add(base, num(b + 1 if k == 1 else 1 - b)))
        for c in x.a[3]:
            go(c)

    go(pc)
    res = []
    for o in out:
        if o not in res:
            res.append(o)
    return res


def range_of(v0, N):
    if v0 is F and isapp(N, "len"):
        return N.a[1][0]
    return app("range", v0, N)


def summarise(I, rec, pc, ev0):
    pset = {}
    # lengths of lists that are only updated in place
    pre = {}
    for p, v0, nx, c, path in rec.phis:
        if inplace(p, nx, rec.cont):
            pre[slen(p)] = slen(v0)
    if pre:
        s0 = Sub(pre)
        rec.phis = [(p, v0, s0(nx), c, path) for p, v0, nx, c, path in rec.phis]
        rec.cont = s0.b(rec.cont)
        rec.exits = [(l, s0.b(p), {k: s0(v) for k, v in m.items()}) for l, p, m in rec.exits]
        for e in I.events[ev0:]:
            e.pc = s0.b(e.pc)
            e.data = s0.data(e.data)
    main = find_main(rec)
    if main is None or main[2].k == "sw" and False:
        return opaque(I, rec, pc, ev0)
    kind, ent, S, N = main
    mp, mv0 = ent[0], ent[1]
    rec.kind = kind
    rec.S = S
    if S is EMPTY:
        # never runs
        done = {p: v0 for p, v0, nx, c, path in rec.phis}
        return finish(I, rec, pc, ev0, None, done, None)
    e = elem(S, -1)
    ie = idx(e)
    rec.cur = e
    if kind == "seq":
        inside = {mp: app("skip", S, ie)}
        if isapp(mp, "x"):
            pass
        inside = {
            app("nth", mp, num(0)): e,
            slen(mp): left(S, e),
            mp: mk("app", "skip", (S, ie)),
        }
        final = {mp: EMPTY}
    else:
        if isapp(S, "range"):
            inside = {mp: e}
            final = {mp: ite(icmp("lt", mv0, N), N, mv0)}
        else:
            inside = {mp: ie}
            final = {mp: N}
    solve(rec, S, e, inside, final)
    rec.inside = inside
    rec.final = final
    return finish(I, rec, pc, ev0, e, final, inside)


def left(S, e):
    """number of elements from e on; at least one"""
    n = slen(S)
    if n.k != "sw":
        return sub(n, idx(e))
    return add(TR, mk("app", "remain", (S, e)))


def inplace(p, nx, cont):
    n = under(cont, nx)
    for l in leaves(n):
        while isapp(l, "set"):
            l = l.a[1][0]
        if l is not p:
            return False
    return any(l is not p for l in leaves(n))


def solve(rec, S, e, inside, final):
    ie = idx(e)
    todo = [x for x in rec.phis if x[0] not in inside]
    todo = [x for x in todo if x[0] not in final]
    cont = rec.cont
    prog = True
    while todo and prog:
        prog = False
        s = Sub(inside)
        c2 = s.b(cont)
        for x in list(todo):
            p, v0, nx = x[:3]
            n = under(c2, s(nx))
            others = {y[0] for y in todo if y[0] is not p}
            if has_any(n, others, {}):
                continue
            r = closed(p, v0, n, S, e)
            if r is None:
                continue
            inside.update(r[0])
            final[p] = r[1]
            todo.remove(x)
            prog = True
            break
    if todo:
        fold(rec, todo, S, e, inside, final, cont)


def level(S, *ts):
    return Q.bound_level(S, *ts)


def close(t, S, e, n):
    return replace(t, {e: elem(S, n)})


def closed(p, v0, n, S, e):
    ie = idx(e)
    if n is p:
        return {p: v0}, v0
    # counters and sums
    if v0.k in ("int", "lin") or is_num(n, p):
        d = lift(lambda x: sub(x, p) if num_leaf(x) else mk("sym", "§no"), n)
        if not has_any(d, {p, mk("sym", "§no")}, {}):
            if not occurs(d, e):
                return {p: add(v0, mul(d, ie))}, add(v0, mul(d, slen(S)))
            k = level(S, d)
            dc = close(d, S, e, k)
            return (
                {p: add(v0, app("presum", S, num(k), dc, idx(e)))},
                add(v0, app("sum", S, num(k), dc)),
            )
    # lists and texts growing at the end
    its = items(n)
    if its and its[0] == ("S", p) and n.k == "seq":
        B = seq(its[1:])
        if not occurs(B, p):
            k = level(S, B)
            Bc = close(B, S, e, k)
            return {p: cat(v0, app("pre", S, num(k), Bc, idx(e)))}, cat(v0, each(S, k, Bc))
        if has_only_len(B, p):
            # the appended part depends on the length so far
            pass
    if its and its[-1] == ("S", p) and n.k == "seq":
        B = seq(its[:-1])
        if not occurs(B, p):
            k = level(S, B)
            R = app("rev", S)
            if R.k == "app":
                Bc = replace(B, {e: elem(R, k)}) if not occurs(B, ie) else None
                if Bc is not None:
                    return {}, cat(each(R, k, Bc), v0)
    # in place updates of the list being visited
    if inplace(p, n, TR):
        r = in_place(p, v0, n, S, e)
        if r is not None:
            return r
    # values that do not depend on the previous iteration
    if not occurs(n, p):
        if not occurs(n, e):
            return (
                {p: ite(icmp("eq", ie, num(0)), v0, n)},
                ite(icmp("eq", slen(S), num(0)), v0, n),
            )
        last = app("nth", S, sub(slen(S), TR))
        li = sub(slen(S), TR)
        prev = app("nth", S, sub(ie, TR))
        return (
            {p: ite(icmp("eq", ie, num(0)), v0, replace(n, {e: prev, ie: sub(ie, TR)}))},
            ite(icmp("eq", slen(S), num(0)), v0, replace(n, {e: last, ie: li})),
        )
    # set once some element satisfies a condition
    if n.k == "sw":
        ls = leaves(n)
        oth = [l for l in ls if l is not p]
        if len(oth) == 1 and not occurs(oth[0], p) and not occurs(oth[0], e):
            c = T.cond_of(n, lambda l: l is not p)
            if not occurs(bval(c), p):
                K = oth[0]
                k = level(S, bval(c))
                cc = close(bval(c), S, e, k)
                hit = Q.is_some(app("find", S, num(k), cc))
                bef = app("anybefore", S, num(k), cc, idx(e))
                T.ENUM_OF.setdefault(bef, "bool")
                return {p: ite(bef, K, v0)}, ite(hit, K, v0)
    if T.ENUM_OF.get(p) == "bool" or p in T.BOOLS or v0 in (F, TR):
        # boolean latch: p' = p or c / p and c
        c1 = bnorm(replace(n, {p: TR}))
        c0 = bnorm(replace(n, {p: F}))
        if c1 is TR and c0 is not F and not occurs(bval(c0), p):
            k = level(S, bval(c0))
            cc = close(bval(c0), S, e, k)
            bef = app("anybefore", S, num(k), cc, idx(e))
            T.ENUM_OF.setdefault(bef, "bool")
            return (
                {p: bval(bor(v0, bef))},
                bval(bor(v0, Q.is_some(app("find", S, num(k), cc)))),
            )
        if c0 is F and c1 is not TR:
            nc = bval(bnot(c1))
            k = level(S, nc)
            cc = close(nc, S, e, k)
            bef = app("anybefore", S, num(k), cc, idx(e))
            T.ENUM_OF.setdefault(bef, "bool")
            return (
                {p: bval(band(v0, bnot(bef)))},
                bval(band(v0, bnot(Q.is_some(app("find", S, num(k), cc))))),
            )
    return None


def has_only_len(B, p):
    return False


def num_leaf(x):
    return x.k in ("int", "lin", "phi", "idx", "elem", "fld", "vfld", "sym") or (
        x.k == "app" and (Q.is_int(x) or x.a[0] in ("presum",))
    )


def is_num(n, p):
    for l in leaves(n):
        if l is p:
            continue
        if l.k == "lin" and any(t is p for t, _ in l.a[1]):
            continue
        return False
    return any(l is not p for l in leaves(n))


def in_place(p, v0, n, S, e):
    ie = idx(e)
    i = None
    cur = None
    for l in leaves(n):
        if l is p:
            continue
        if not isapp(l, "set") or l.a[1][0] is not p:
            return None
        j = l.a[1][1]
        if i is None:
            i = j
        elif i is not j:
            return None
    # the index runs over the list itself
    same = slen(v0)
    idxok = (i is ie and (S is v0 or slen(S) is same)) or (
        i is e and isapp(S, "range") and S.a[1][0] is F and S.a[1][1] is same
    )
    if not idxok:
        return None
    old = app("nth", v0, ie)
    if S is v0:
        old = e
    m = {mk("app", "nth", (p, i)): old}
    x = lift(lambda l: l.a[1][2] if l is not p else mk("app", "nth", (p, i)), n)
    x = replace(x, m)
    if occurs(x, p):
        return None
    k = level(S, x)
    xc = close(x, S, e, k)
    ins = {mk("app", "nth", (p, i)): old}
    if isapp(S, "range"):
        # view over the list
        S2 = v0
        k = level(S2, x)
        xc = replace(x, {e: idx(elem(S2, k)), app("nth", v0, e): elem(S2, k)})
        return ins, each(S2, k, seq([("E", xc)]))
    return ins, each(S, k, seq([("E", xc)]))


def fold(rec, todo, S, e, inside, final, cont):
    """values that depend on all previous iterations in another way"""
    s = Sub(inside)
    c2 = s.b(cont)
    nxs = {x[0]: under(c2, s(x[2])) for x in todo}
    v0s = {x[0]: x[1] for x in todo}
    rec.fold = [(x[0], x[1], nxs[x[0]]) for x in todo]
    phis = list(nxs)
    deps = {p: [q for q in phis if occurs(nxs[p], q)] for p in phis}
    for p in phis:
        # the values this one depends on, itself first
        cl = [p]
        for q in cl:
            for r in deps[q]:
                if r not in cl:
                    cl.append(r)
        f, pf = fold_of(S, e, [(q, v0s[q], nxs[q]) for q in cl])
        for t in (f, pf):
            tag = T.ENUM_OF.get(p)
            if tag:
                T.ENUM_OF.setdefault(t, tag)
            if p in T.BOOLS:
                T.BOOLS.add(t)
        final[p] = f
        inside.setdefault(p, pf)


def acc(d, j):
    return mk("sym", "§acc%d.%d" % (d, j))


def fold_of(S, e, comps):
    """first of the values (symbol, initial, next) after all / before e"""
    k = level(S, *[n for _, _, n in comps])
    d = 0
    for _, _, n in comps:
        for x in subterms(n):
            if x.k == "app" and x.a[0] in ("fold", "prefold"):
                d = max(d, x.a[1][4].a[0] + 1)
    m = {q: acc(d, j) for j, (q, _, _) in enumerate(comps)}
    m[e] = elem(S, k)
    V = mk("agg", "tuple", 0, tuple(v for _, v, _ in comps))
    N = mk("agg", "tuple", 0, tuple(replace(n, m) for _, _, n in comps))
    # over a list made element by element from another: over that one
    while S.k == "seq" and len(S.a[0]) == 1 and S.a[0][0][0] == "F" and Q.one_elem(S.a[0][0][3]) is not None:
        _, S0, n, b = S.a[0][0]
        e0 = elem(S0, k)
        N = replace(N, {elem(S, k): replace(Q.one_elem(b), {elem(S0, n): e0, idx(elem(S0, n)): idx(e0)}), idx(elem(S, k)): idx(e0)})
        S = S0
    out = unrolled(S, k, V, N, d)
    return (
        out if out is not None else mk("app", "fold", (S, num(k), V, N, num(d))),
        mk("app", "prefold", (S, num(k), V, N, num(d), idx(e))),
    )


def unrolled(S, k, V, N, d):
    """the first value after a list written out element by element"""
    if S.k != "seq" or not 0 < len(S.a[0]) <= 16 or any(it[0] != "E" for it in S.a[0]):
        return None
    ek = elem(S, k)
    vs = V.a[2]
    for i, it in enumerate(S.a[0]):
        m = {acc(d, j): v for j, v in enumerate(vs)}
        m[ek], m[idx(ek)] = it[1], num(i)
        vs = tuple(replace(n, m) for n in N.a[2])
    return vs[0]


def finish(I, rec, pc, ev0, e, final, inside):
    fin = Sub(final)
    res = []
    S = rec.S
    early = []
    if e is None:
        for l, p, m in rec.exits:
            res.append((l, band(pc, fin.b(p)), {k: fin(v) for k, v in m.items()}))
        del I.events[ev0:]
        return [r for r in res if r[1] is not F]
    ins = Sub(inside)
    ie = idx(e)
    nonempty = icmp("gt", slen(S), num(0))
    for l, p, m in rec.exits:
        pe = ins.b(p)
        if pe is not F:
            early.append((l, pe, {k: ins(v) for k, v in m.items()}))
    rec.early = early
    actx = rec.ctx
    if not early:
        for l, p, m in rec.exits:
            q = fin.b(p)
            if q is F:
                continue
            res.append((l, band(pc, q), {k: fin(v) for k, v in m.items()}))
    else:
        C = bor(*[p for _, p, _ in early])
        k = level(S, bval(C))
        ek = elem(S, k)
        Ck = close(bval(C), S, e, k)
        f = app("find", S, num(k), Ck)
        hit = bnorm(Q.is_some(f))
        rec.find = f
        x = T.vfield(f, 1, 0)
        if x is not BOT:
            m0 = {e: x, ie: T.field(T.vfield(Q.find_pair(S, num(k), Ck), 1, 0), 1, "tuple")}
            s2 = Sub(m0)
            single = len(early) == 1
            Cx = s2.b(C)
            for l, p, m in early:
                q = s2.b(bunder(C, p)) if not single else TR
                res.append((l, band(pc, hit, q), {kk: s2(v) for kk, v in m.items()}))
        for l, p, m in rec.exits:
            q = fin.b(p)
            if q is F:
                continue
            q = band(pc, bnot(hit), q)
            if q is not F:
                res.append((l, q, {kk: fin(v) for kk, v in m.items()}))
    # what happens during the iterations
    live = nonempty
    if early:
        bef = app("anybefore", S, num(k), close(bval(C), S, e, k), idx(e))
        T.ENUM_OF.setdefault(bef, "bool")
        live = band(live, bnot(bef))
    ren = Sub({e: free_elem(I, S)})
    for ev in I.events[ev0:]:
        if ev.pc is not F:
            ev.pc = ren.b(band(ins.b(ev.pc), live))
            ev.data = ren.data(ins.data(ev.data))
    return [r for r in res if r[1] is not F]


def free_elem(I, S):
    """the element being visited when something happens, outside its loop"""
    I.nfree = getattr(I, "nfree", 1) + 1
    return elem(S, -I.nfree)


def opaque(I, rec, pc, ev0):
    """a loop that does not run over a known list: values when it is left"""
    rec.kind = "opaque"
    rec.S = None
    exits = [x for x in rec.exits if x[1] is not F]
    comps = rec.phis
    d = 0
    for t in [n for _, _, n, _, _ in comps] + [bval(rec.cont)]:
        for x in subterms(t):
            if x.k == "app" and x.a[0] in ("fold", "prefold"):
                d = max(d, x.a[1][4].a[0] + 1)
            elif x.k == "app" and x.a[0] in ("while", "wany"):
                d = max(d, x.a[1][3].a[0] + 1)
    m = {q[0]: acc(d, j) for j, q in enumerate(comps)}
    for q, a in m.items():
        tag = T.ENUM_OF.get(q)
        if tag:
            T.ENUM_OF.setdefault(a, tag)
    s = Sub(m)
    V = mk("agg", "tuple", 0, tuple(x[1] for x in comps))
    N = mk("agg", "tuple", 0, tuple(s(x[2]) for x in comps))
    C = bval(s.b(rec.cont))
    fin = {}
    for j, x in enumerate(comps):
        f = mk("app", "while", (V, C, N, num(d), num(j)))
        tag = T.ENUM_OF.get(x[0])
        if tag:
            T.ENUM_OF.setdefault(f, tag)
        if x[0] in T.BOOLS:
            T.BOOLS.add(f)
        fin[x[0]] = f
    fs = Sub(fin)
    rec.final = fin
    for e in I.events[ev0:]:
        if e.pc is not F:
            w = mk("app", "wany", (V, C, N, num(d), bval(s.b(e.pc))))
            T.ENUM_OF.setdefault(w, "bool")
            e.pc = bnorm(w)
    if len(exits) == 1:
        l, p, mm = exits[0]
        return [(l, pc, {k: fs(v) for k, v in mm.items()})]
    res = []
    for l, p, mm in exits:
        res.append((l, band(pc, fs.b(p)), {k: fs(v) for k, v in mm.items()}))
    return [r for r in res if r[1] is not F]
