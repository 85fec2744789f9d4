"""Hash-consed value terms and decision diagrams.

A value computed by the data-flow analysis is a term.  Values that depend on a
run-time condition are ordered multi-way decision diagrams ('sw' terms): an
inner node tests one atom (a term) against a finite partition of its domain.
There is no solver: diagrams are merged at control-flow joins and compared
structurally.

kinds
  bot                       unreachable
  int n                     integer, bool (0/1) or char (code point)
  flt x                     float constant
  sym name                  free input
  fld t i / vfld t v i      projection of an opaque struct / enum payload
  agg tag variant fields    constructed struct / tuple / enum value
  fn  def env               function item or closure (env = captured values)
  app name args             uninterpreted application
  lin c ((t,k)..)           linear integer combination
  seq items                 string or list, see SEQ below
  elem S n / idx e          generic element of a sequence and its position
  phi key                   loop carried value that was not summarised
  ref cell path             mutable reference
  sw  atom kind cases kids  decision node

SEQ items
  ('L', text) ('C', char) ('E', value) ('S', sequence term)
  ('A', sw of sequences) ('F', src, n, body)   concat of body over elements of src
"""

NEG = -(1 << 200)
POS = 1 << 200


import time


class T(object):
    __slots__ = ("k", "a", "id", "__weakref__")

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]
DEADLINE = [None]


class Timeout(Exception):
    """the analysis of one unit takes too long"""



def mk(k, *a):
    key = (k,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        t.id = _cnt[0]
        _cnt[0] += 1
        _tab[key] = t
        if not _cnt[0] & 255 and DEADLINE[0] and time.time() > DEADLINE[0]:
            raise Timeout()
    return t


BOT = mk("bot")


def num(n):
    return mk("int", int(n))


F = num(0)
TR = num(1)


def boolt(b):
    return TR if b else F


def agg(tag, variant, fields):
    fields = tuple(fields)
    if tag in TRANSPARENT and len(fields) == 1:
        return fields[0]
    # eta: rebuild of all the fields of one opaque struct is that struct
    if fields and fields[0].k in ("fld", "vfld"):
        f0 = fields[0]
        base = f0.a[0]
        if f0.k == "fld" and f0.a[1] == 0 and STRUCT_ARITY.get(tag) == len(fields):
            if all(
                f.k == "fld" and f.a[0] is base and f.a[1] == i
                for i, f in enumerate(fields)
            ) and ETA_OK(tag, base):
                return base
    return mk("agg", tag, variant, fields)


# filled by facts: struct tag -> number of fields
STRUCT_ARITY = {}
# opaque term -> struct tag it is known to have (set when first expanded)
KNOWN_TAG = {}
TRANSPARENT = {
    "std::borrow::Cow",
    "alloc::borrow::Cow",
    "std::boxed::Box",
    "std::mem::ManuallyDrop",
    "std::mem::MaybeUninit",
}


def ETA_OK(tag, base):
    return KNOWN_TAG.get(base) == tag


UNIT = mk("agg", "tuple", 0, ())


def tup(*xs):
    return agg("tuple", 0, xs)


OPT = "std::option::Option"
RES = "std::result::Result"
NONE = mk("agg", OPT, 0, ())


def some(x):
    return agg(OPT, 1, (x,))


def ok(x):
    return agg(RES, 0, (x,))


def err(x):
    return agg(RES, 1, (x,))


def sym(name):
    return mk("sym", name)


# ---------------------------------------------------------------- diagrams


def top(v):
    return v.a[0] if v.k == "sw" else None


def keys_of(v):
    """case keys of a sw node"""
    return v.a[2]


def kids(v):
    return v.a[3]


# kind 'e': cases = (0..n-1); kind 'i': cases = ((lo,hi)...) contiguous
# kind 's': cases = (lit..., None) with None = default


def _clean(kind, cases, ch):
    if kind == "i":
        oc, ok_ = [], []
        for c, k in zip(cases, ch):
            if oc and (ok_[-1] is k or k is BOT or ok_[-1] is BOT):
                oc[-1] = (oc[-1][0], c[1])
                if ok_[-1] is BOT:
                    ok_[-1] = k
            else:
                oc.append(c)
                ok_.append(k)
        return tuple(oc), tuple(ok_)
    if kind == "s":
        d = ch[-1]
        prs = [(c, k) for c, k in zip(cases[:-1], ch[:-1]) if k is not d]
        prs.sort(key=lambda p: p[0])
        return tuple(p[0] for p in prs) + (None,), tuple(p[1] for p in prs) + (d,)
    return cases, ch


def node(atom, kind, cases, ch, raw=False):
    """decision node whose children only test later atoms"""
    live = [c for c in ch if c is not BOT]
    if not live:
        return BOT
    f = live[0]
    if all(c is f for c in live):
        return f
    cases, ch = _clean(kind, cases, tuple(ch))
    live = [c for c in ch if c is not BOT]
    f = live[0]
    if all(c is f for c in live):
        return f
    if kind == "e":
        e = eta(atom, ch)
        if e is not None:
            return e
    if not raw:
        if f.k == "agg" and f.a[2]:
            tag, var, n = f.a[0], f.a[1], len(f.a[2])
            if all(
                c.k == "agg"
                and c.a[0] == tag
                and c.a[1] == var
                and len(c.a[2]) == n
                for c in live
            ):
                return agg(
                    tag,
                    var,
                    tuple(
                        build(
                            atom,
                            kind,
                            cases,
                            tuple(BOT if c is BOT else c.a[2][i] for c in ch),
                        )
                        for i in range(n)
                    ),
                )
            # a struct known only symbolically on some branches
            if STRUCT_ARITY.get(tag) == n and all(
                (c.k == "agg" and c.a[0] == tag)
                or (c.k != "sw" and c.k != "agg" and c.k != "int")
                for c in live
            ):
                return agg(
                    tag,
                    var,
                    tuple(
                        build(
                            atom,
                            kind,
                            cases,
                            tuple(
                                BOT if c is BOT else field(c, i, tag) for c in ch
                            ),
                        )
                        for i in range(n)
                    ),
                )
        if any(c.k == "seq" for c in live):
            r = factor(atom, kind, cases, ch, live)
            if r is not None:
                return r
    return mk("sw", atom, kind, cases, ch)


def eta(atom, ch):
    """a switch that rebuilds what it tests is the tested term"""
    if len(ch) == 2 and ch[0] is F and ch[1] is TR:
        return atom if atom.k not in ("sw",) and ENUM_OF.get(atom) in (None, "bool") else None
    if atom.k == "agg":
        return None
    seen = False
    tag = None
    for i, c in enumerate(ch):
        if c is BOT:
            continue
        if c is atom:
            seen = True
            continue
        if c.k != "agg" or c.a[1] != i or c.a[0] in ("tuple",):
            return None
        if tag is None:
            tag = c.a[0]
        elif tag != c.a[0]:
            return None
        for j, x in enumerate(c.a[2]):
            if not (x.k == "vfld" and x.a[0] is atom and x.a[1] == i and x.a[2] == j):
                return None
        seen = True
    if tag is not None and ENUM_OF.get(atom) not in (None, tag):
        return None
    return atom if seen else None


# opaque enum term -> enum tag (set on discriminant reads)
ENUM_OF = {}


def all_cases(atom, kind, vs):
    """refined case list for nodes in vs that test atom"""
    if kind == "e":
        for v in vs:
            if v.k == "sw" and v.a[0] is atom and v.a[1] == "e":
                return v.a[2]
    if kind == "i":
        los = set()
        lo, hi = POS, NEG
        for v in vs:
            if v.k == "sw" and v.a[0] is atom:
                for c in v.a[2]:
                    los.add(c[0])
                    lo = min(lo, c[0])
                    hi = max(hi, c[1])
        l = sorted(los)
        return tuple(
            (l[i], (l[i + 1] - 1) if i + 1 < len(l) else hi) for i in range(len(l))
        )
    lits = set()
    for v in vs:
        if v.k == "sw" and v.a[0] is atom:
            lits.update(c for c in v.a[2] if c is not None)
    return tuple(sorted(lits)) + (None,)


def cof(v, atom, kind, case):
    """top level cofactor"""
    if v.k == "sw":
        if v.a[0] is atom:
            if kind == "e":
                return v.a[3][case]
            if kind == "i":
                for c, k in zip(v.a[2], v.a[3]):
                    if c[0] <= case[0] <= c[1]:
                        return k
                return BOT
            for c, k in zip(v.a[2][:-1], v.a[3][:-1]):
                if c == case:
                    return k
            return v.a[3][-1]
        return v
    if v is atom:
        return pin(v, kind, case)
    return v


def pin(x, kind, case):
    """what an opaque term is known to be under a case"""
    if kind == "e":
        tag = ENUM_OF.get(x)
        if tag is None:
            return num(case) if x in BOOLS else x
        if tag == "bool":
            return num(case)
        return eta_variant(x, tag, case)
    if kind == "i":
        return num(case[0]) if case[0] == case[1] else x
    if case is None:
        return x
    return lit(case)


BOOLS = set()
INTS = set()


def hint(v, ty):
    """remember what kind of value an opaque term is"""
    for x in leaves(v):
        if x.k in ("fld", "vfld", "sym", "elem", "app", "phi"):
            if ty == "bool":
                ENUM_OF.setdefault(x, "bool")
            elif ty.startswith("std::option::Option<") or ty.startswith("core::option::Option<"):
                ENUM_OF.setdefault(x, OPT)
            elif ty in INT_TYPES:
                INTS.add(x)
    return v


INT_TYPES = {"usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128", "char"}
ENUM_VARIANTS = {}  # tag -> list of field counts per variant


def eta_variant(x, tag, i):
    nf = ENUM_VARIANTS[tag][i]
    return mk("agg", tag, i, tuple(mk("vfld", x, i, j) for j in range(nf)))


_bmemo = {}


def build(atom, kind, cases, ch, raw=False):
    """decision node, reordering children if they test earlier atoms"""
    m = None
    for c in ch:
        if c.k == "sw":
            t = c.a[0]
            if t.id <= atom.id and (m is None or t.id < m.id):
                m = t
    if m is None:
        return node(atom, kind, cases, ch, raw)
    key = (atom, kind, cases, tuple(ch), raw)
    r = _bmemo.get(key)
    if r is not None:
        return r
    if m is atom:
        # children retest the atom: refine
        if kind == "e":
            r = node(
                atom,
                kind,
                cases,
                tuple(cof(c, atom, kind, i) for i, c in zip(cases, ch)),
                raw,
            )
        else:
            me = mk("sw", atom, kind, cases, tuple(ch))
            cs = all_cases(atom, kind, [me] + [c for c in ch])
            r = node(
                atom,
                kind,
                cs,
                tuple(cof(cof(me, atom, kind, c), atom, kind, c) for c in cs),
                raw,
            )
            # the cofactors may still test earlier atoms
            if r.k == "sw" and r.a[0] is atom and any(
                c.k == "sw" and c.a[0].id <= atom.id for c in r.a[3]
            ):
                r = build(atom, kind, r.a[2], r.a[3], raw)
        if kind == "e" and r.k == "sw" and r.a[0] is atom and any(
            c.k == "sw" and c.a[0].id <= atom.id for c in r.a[3]
        ):
            r = build(atom, kind, r.a[2], r.a[3], raw)
    else:
        mk_kind = next(c.a[1] for c in ch if c.k == "sw" and c.a[0] is m)
        cs = all_cases(m, mk_kind, ch)
        r = node(
            m,
            mk_kind,
            cs,
            tuple(
                build(
                    atom, kind, cases, tuple(cof(c, m, mk_kind, x) for c in ch), raw
                )
                for x in cs
            ),
            raw,
        )
    _bmemo[key] = r
    return r


def lift(f, *vs, **kw):
    """apply f to the leaves of diagrams"""
    if not any(v.k == "sw" for v in vs):
        for v in vs:
            if v is BOT:
                return BOT
        return f(*vs)
    memo = {}

    def go(vs):
        for v in vs:
            if v is BOT:
                return BOT
        r = memo.get(vs)
        if r is not None:
            return r
        m = None
        for v in vs:
            if v.k == "sw" and (m is None or v.a[0].id < m.id):
                m = v.a[0]
        if m is None:
            r = f(*vs)
        else:
            kind = next(v.a[1] for v in vs if v.k == "sw" and v.a[0] is m)
            cs = all_cases(m, kind, vs)
            r = build(
                m, kind, cs, tuple(go(tuple(cof(v, m, kind, c) for v in vs)) for c in cs)
            )
        memo[vs] = r
        return r

    return go(vs)


def nleaves(v, lim=64):
    if v.k != "sw":
        return 1
    seen = set()
    n = 0
    st = [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "sw":
            st.extend(x.a[3])
        elif x is not BOT:
            n += 1
            if n > lim:
                return n
    return n


def leaves(v):
    """set of leaf terms"""
    out = []
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "sw":
            st.extend(x.a[3])
        elif x is not BOT:
            out.append(x)
    return out


def cond_of(v, pred):
    """boolean diagram: where the leaf satisfies pred"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.k == "sw":
                r = node(x.a[0], x.a[1], x.a[2], tuple(go(c) for c in x.a[3]))
            elif x is BOT:
                r = F
            else:
                r = boolt(pred(x))
            memo[x] = r
        return r

    return go(v)


# ---------------------------------------------------------------- booleans


def bview(p):
    """boolean value as diagram node (atom p tested) or constant"""
    if p.k in ("int", "bot"):
        return p
    if p.k == "sw":
        return p
    BOOLS.add(p)
    ENUM_OF.setdefault(p, "bool")
    return mk("sw", p, "e", (0, 1), (F, TR))


def bnorm(v):
    """normalise a boolean diagram so that opaque leaves become atoms"""
    if v.k == "sw":
        if all(c.k == "int" or c.k == "bot" for c in v.a[3]):
            return v
        memo = {}

        def go(x):
            if x.k != "sw":
                return bview(x)
            r = memo.get(x)
            if r is None:
                r = rbuild(x.a[0], x.a[1], x.a[2], tuple(go(c) for c in x.a[3]))
                memo[x] = r
            return r

        return go(v)
    return bview(v)


def rbuild(atom, kind, cases, ch):
    """build for boolean functions: no eta collapse"""
    m = None
    for c in ch:
        if c.k == "sw":
            t = c.a[0]
            if t.id <= atom.id and (m is None or t.id < m.id):
                m = t
    if m is None:
        return bnode(atom, kind, cases, ch)
    if m is atom:
        me = mk("sw", atom, kind, cases, tuple(ch))
        cs = all_cases(atom, kind, [me] + list(ch))
        ch2 = tuple(cof(cof(me, atom, kind, c), atom, kind, c) for c in cs)
        return rbuild(atom, kind, cs, ch2)
    mkind = next(c.a[1] for c in ch if c.k == "sw" and c.a[0] is m)
    cs = all_cases(m, mkind, ch)
    return bnode(
        m,
        mkind,
        cs,
        tuple(rbuild(atom, kind, cases, tuple(cof(c, m, mkind, x) for c in ch)) for x in cs),
    )


def bnode(atom, kind, cases, ch):
    ch = tuple(F if c is BOT else c for c in ch)
    f = ch[0]
    if all(c is f for c in ch):
        return f
    cases, ch = _clean(kind, cases, ch)
    f = ch[0]
    if all(c is f for c in ch):
        return f
    return mk("sw", atom, kind, cases, ch)


_andm = {}


def _bapply(op, a, b):
    key = (op, a, b)
    r = _andm.get(key)
    if r is not None:
        return r
    if op == "and":
        if a is F or b is F:
            r = F
        elif a is TR:
            r = b
        elif b is TR or a is b:
            r = a
    else:
        if a is TR or b is TR:
            r = TR
        elif a is F:
            r = b
        elif b is F or a is b:
            r = a
    if r is None:
        m = None
        for v in (a, b):
            if v.k == "sw" and (m is None or v.a[0].id < m.a[0].id):
                m = v
        atom, kind = m.a[0], m.a[1]
        cs = all_cases(atom, kind, (a, b))
        r = bnode(
            atom,
            kind,
            cs,
            tuple(
                _bapply(op, cof(a, atom, kind, c), cof(b, atom, kind, c)) for c in cs
            ),
        )
    _andm[key] = r
    return r


def band(*xs):
    r = TR
    for x in xs:
        x = bnorm(x)
        if x is BOT:
            x = F
        r = _bapply("and", r, x)
        if r is F:
            return F
    return r


def bor(*xs):
    r = F
    for x in xs:
        x = bnorm(x)
        if x is BOT:
            x = F
        r = _bapply("or", r, x)
        if r is TR:
            return TR
    return r


_notm = {}


def bnot(x):
    x = bnorm(x)
    if x is F or x is BOT:
        return TR
    if x is TR:
        return F
    r = _notm.get(x)
    if r is None:
        r = bnode(x.a[0], x.a[1], x.a[2], tuple(bnot(c) for c in x.a[3]))
        _notm[x] = r
    return r


def bval(p):
    """value form of a boolean diagram (eta collapsed)"""
    if p.k != "sw":
        return p
    return node(p.a[0], p.a[1], p.a[2], tuple(bval(c) for c in p.a[3]))


_mergem = {}


def merge(pairs):
    """value that is v_i where p_i holds (p_i disjoint boolean diagrams)"""
    pairs = [(p, v) for p, v in pairs if p is not F and v is not BOT]
    if not pairs:
        return BOT
    v0 = pairs[0][1]
    if all(v is v0 for _, v in pairs):
        return v0
    if len(pairs) > 1:
        by = {}
        for p, v in pairs:
            q = by.get(v)
            by[v] = p if q is None else bor(q, p)
        pairs = sorted(((p, v) for v, p in by.items()), key=lambda x: x[1].id)
        v0 = pairs[0][1]
    key = tuple(pairs)
    r = _mergem.get(key)
    if r is not None:
        return r
    for p, v in pairs:
        if p is TR:
            _mergem[key] = v
            return v
    # structs: merge field by field
    vs = [v for _, v in pairs]
    r = None
    if v0.k == "agg" and v0.a[2]:
        tag, var, n = v0.a[0], v0.a[1], len(v0.a[2])
        if all(
            v.k == "agg" and v.a[0] == tag and v.a[1] == var and len(v.a[2]) == n
            for v in vs
        ):
            r = agg(
                tag,
                var,
                tuple(merge([(p, v.a[2][i]) for p, v in pairs]) for i in range(n)),
            )
    if r is None:
        st = next(
            (
                v
                for v in vs
                if v.k == "agg"
                and v.a[2]
                and STRUCT_ARITY.get(v.a[0]) == len(v.a[2])
            ),
            None,
        )
        if st is not None:
            tag, n = st.a[0], len(st.a[2])
            r = agg(
                tag,
                0,
                tuple(
                    merge([(p, field(v, i, tag)) for p, v in pairs]) for i in range(n)
                ),
            )
    if r is None and any(v.k == "seq" and v.a[0] for v in vs):
        r = merge_seq(pairs)
    if r is None:
        m = None
        for p, v in pairs:
            for x in (p, v):
                if x.k == "sw" and (m is None or x.a[0].id < m.a[0].id):
                    m = x
        atom, kind = m.a[0], m.a[1]
        al = [p for p, _ in pairs] + [v for _, v in pairs]
        cs = all_cases(atom, kind, al)
        r = build(
            atom,
            kind,
            cs,
            tuple(
                merge(
                    [
                        (cof(p, atom, kind, c), cof(v, atom, kind, c))
                        for p, v in pairs
                    ]
                )
                for c in cs
            ),
        )
    _mergem[key] = r
    return r


def merge_seq(pairs):
    """sequences with common first or last parts: only the rest is merged"""
    ls = [list(items(v)) for _, v in pairs]
    pre, suf = [], []
    while all(ls) and all(l[0] == ls[0][0] for l in ls):
        pre.append(ls[0][0])
        for l in ls:
            l.pop(0)
    while all(ls) and all(l[-1] == ls[0][-1] for l in ls):
        suf.append(ls[0][-1])
        for l in ls:
            l.pop()
    if not pre and not suf:
        return None
    mid = merge([(p, seq(l)) for (p, _), l in zip(pairs, ls)])
    return seq(pre + list(items(mid)) + suf[::-1])


def ite(c, a, b):
    c = bnorm(c)
    if c is TR:
        return a
    if c is F:
        return b
    return merge([(c, a), (bnot(c), b)])


def under(p, v):
    """v simplified assuming p (don't care elsewhere)"""
    if p is TR:
        return v
    if p is F:
        return BOT
    if v.k not in ("sw", "agg"):
        return v
    return merge([(p, v), (bnot(p), BOT)]) if v.k == "agg" else _under(p, v)


_underm = {}


def _under(p, v):
    if p is F:
        return BOT
    if p is TR or v.k != "sw":
        return v
    key = (p, v)
    r = _underm.get(key)
    if r is None:
        m = p if p.a[0].id <= v.a[0].id else v
        atom, kind = m.a[0], m.a[1]
        cs = all_cases(atom, kind, (p, v))
        r = build(
            atom,
            kind,
            cs,
            tuple(_under(cof(p, atom, kind, c), cof(v, atom, kind, c)) for c in cs),
        )
        _underm[key] = r
    return r


def bunder(p, c):
    """boolean c simplified under p (both boolean diagrams)"""
    c = bnorm(c)
    p = bnorm(p)
    if p is F:
        return F
    key = (p, c, "b")
    r = _underm.get(key)
    if r is not None:
        return r
    if p is TR or c.k != "sw":
        r = c
    else:
        m = p if p.a[0].id <= c.a[0].id else c
        atom, kind = m.a[0], m.a[1]
        cs = all_cases(atom, kind, (p, c))
        ch = []
        for x in cs:
            pp = cof(p, atom, kind, x)
            ch.append(None if pp is F else bunder(pp, cof(c, atom, kind, x)))
        live = [x for x in ch if x is not None]
        if all(x is live[0] for x in live):
            r = live[0]
        else:
            # don't cares become false
            r = bnode(atom, kind, cs, tuple(F if x is None else x for x in ch))
    _underm[key] = r
    return r


# ---------------------------------------------------------------- switching

NONNEG_APPS = None


def lower(t):
    if t.k == "int":
        return t.a[0]
    if t.k == "lin":
        if all(k > 0 for _, k in t.a[1]):
            return t.a[0] + sum(k * max(lower(x), 0) for x, k in t.a[1])
        return NEG
    if t in SIGNED:
        return NEG
    if t.k == "app" and LOWER_HOOK[0]:
        return LOWER_HOOK[0](t)
    return 0


LOWER_HOOK = [None]


def upper(t):
    """known upper bound of an integer term"""
    if t.k == "lin":
        return _upper(t.a[0], dict(t.a[1]), 3)
    return POS


def top_of(x):
    """an index is below the length of what it indexes"""
    e = x.a[0] if x.k == "idx" else x
    if e.k != "elem":
        return None
    S = e.a[0]
    if x.k == "idx":
        n = slen(S)
    elif S.k == "app" and S.a[0] == "range":
        n = S.a[1][1]
    else:
        return None
    return n if n.k in ("lin", "int") or n.k not in ("sw", "bot", "top") else None


def _upper(c, d, depth):
    pos = [x for x, k in d.items() if k > 0]
    if not pos:
        r = c
        for x, k in d.items():
            lo = lower(x)
            if lo <= NEG:
                return POS
            r += k * lo
        return r
    if depth == 0 or not any(k < 0 for k in d.values()):
        return POS
    for x in pos:
        n = top_of(x)
        if n is None:
            continue
        k = d[x]
        d2 = dict(d)
        del d2[x]
        c0, d0 = _lp(n)
        for y, m in d0.items() if isinstance(d0, dict) else d0:
            d2[y] = d2.get(y, 0) + k * m
            if d2[y] == 0:
                del d2[y]
        r = _upper(c + k * (c0 - 1), d2, depth - 1)
        if r < POS:
            return r
    return POS


def lowerl(t):
    """lower bound, also for differences"""
    if t.k == "lin":
        r = lower(t)
        if r <= NEG:
            u = _upper(-t.a[0], {x: -k for x, k in t.a[1]}, 3)
            if u < POS:
                return -u
        return r
    return lower(t)


SIGNED = set()


def switch(v, kind, cases, ch):
    """select a child by the value v; ch may be diagrams"""
    if v is BOT:
        return BOT
    if v.k == "sw":
        # compose: replace the leaves of v by the selected child
        memo = {}

        def go(x):
            if x.k != "sw":
                return switch(x, kind, cases, ch)
            r = memo.get(x)
            if r is None:
                r = build(x.a[0], x.a[1], x.a[2], tuple(go(c) for c in x.a[3]))
                memo[x] = r
            return r

        return go(v)
    if kind == "e":
        if v.k == "agg":
            return ch[v.a[1]] if v.a[1] < len(ch) else BOT
        if v.k == "int":
            return ch[v.a[0]] if 0 <= v.a[0] < len(ch) else BOT
        return build(v, kind, cases, ch)
    if kind == "i":
        if v.k == "int":
            for c, k in zip(cases, ch):
                if c[0] <= v.a[0] <= c[1]:
                    return k
            return BOT
        if v.k == "lin" and lin_atom(v)[0] is not v:
            atom, mul, off = lin_atom(v)
            # v = mul*atom + off
            cs, kk = [], []
            for c, k in zip(cases, ch):
                lo, hi = c
                if mul > 0:
                    l2 = NEG if lo <= NEG else -((off - lo) // mul)
                    h2 = POS if hi >= POS else (hi - off) // mul
                else:
                    l2 = NEG if hi >= POS else -((hi - off) // -mul)
                    h2 = POS if lo <= NEG else (off - lo) // -mul
                if l2 <= h2:
                    cs.append((l2, h2))
                    kk.append(k)
            if mul < 0:
                cs.reverse()
                kk.reverse()
            return switch(atom, "i", tuple(cs), tuple(kk))
        lo, up = lowerl(v), upper(v)
        cs, kk = [], []
        for c, k in zip(cases, ch):
            if c[1] < lo or c[0] > up:
                continue
            cs.append((max(c[0], lo), min(c[1], up)))
            kk.append(k)
        if not cs:
            return BOT
        return build(v, kind, tuple(cs), tuple(kk))
    # strings
    l = as_lit(v)
    if l is not None:
        for c, k in zip(cases[:-1], ch[:-1]):
            if c == l:
                return k
        return ch[-1]
    prs = list(zip(cases[:-1], ch[:-1]))
    d = ch[-1]
    if v.k == "seq":
        prs = [(c, k) for c, k in prs if lit_possible(v, c)]
        if not prs:
            return d
    e = [k for c, k in prs if c == ""]
    rest = [(c, k) for c, k in prs if c != ""]
    if rest:
        rest.sort(key=lambda p: p[0])
        r = build(
            v,
            "s",
            tuple(c for c, _ in rest) + (None,),
            tuple(k for _, k in rest) + (d,),
        )
    else:
        r = d
    if e:
        r = switch(slen(v), "i", ((0, 0), (1, POS)), (e[0], r))
    return r


def lin_atom(v):
    """(atom, mul, off) with v = mul*atom+off"""
    from math import gcd

    c, ts = v.a
    g = 0
    for _, k in ts:
        g = gcd(g, abs(k))
    if ts[0][1] < 0:
        g = -g
    nt = tuple((t, k // g) for t, k in ts)
    if len(nt) == 1 and nt[0][1] == 1:
        return nt[0][0], g, c
    return mk("lin", 0, nt), g, c


# ---------------------------------------------------------------- integers


def _lp(v):
    if v.k == "int":
        return v.a[0], {}
    if v.k == "lin":
        return v.a[0], dict(v.a[1])
    return 0, {v: 1}


def mklin(c, d):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return num(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return mk("lin", c, tuple(sorted(d.items(), key=lambda p: p[0].id)))


def add(a, b):
    def f(x, y):
        c, d = _lp(x)
        c2, d2 = _lp(y)
        d = dict(d)
        for t, k in d2.items():
            d[t] = d.get(t, 0) + k
        return mklin(c + c2, d)

    return lift(f, a, b)


def neg(a):
    def f(x):
        c, d = _lp(x)
        return mklin(-c, {t: -k for t, k in d.items()})

    return lift(f, a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    def f(x, y):
        if x.k != "int":
            x, y = y, x
        if x.k == "int":
            c, d = _lp(y)
            n = x.a[0]
            return mklin(c * n, {t: k * n for t, k in d.items()})
        if x.id > y.id:
            x, y = y, x
        return mk("app", "mul", (x, y))

    return lift(f, a, b)


def isum(xs):
    r = num(0)
    for x in xs:
        r = add(r, x)
    return r


def icmp(op, a, b):
    d = sub(a, b)
    if op == "lt":
        cs, ch = ((NEG, -1), (0, POS)), (TR, F)
    elif op == "le":
        cs, ch = ((NEG, 0), (1, POS)), (TR, F)
    elif op == "gt":
        cs, ch = ((NEG, 0), (1, POS)), (F, TR)
    elif op == "ge":
        cs, ch = ((NEG, -1), (0, POS)), (F, TR)
    elif op == "eq":
        cs, ch = ((NEG, -1), (0, 0), (1, POS)), (F, TR, F)
    elif op == "ne":
        cs, ch = ((NEG, -1), (0, 0), (1, POS)), (TR, F, TR)
    elif op == "cmp":
        cs, ch = ((NEG, -1), (0, 0), (1, POS)), (ORD[0], ORD[1], ORD[2])
    return switch(d, "i", cs, ch)


ORDT = "std::cmp::Ordering"
ORD = tuple(mk("agg", ORDT, i, ()) for i in range(3))


# ---------------------------------------------------------------- sequences


def lit(s):
    if s == "":
        return EMPTY
    return mk("seq", (("L", s),))


EMPTY = mk("seq", ())


def items(v):
    if v.k == "seq":
        return v.a[0]
    if v is BOT:
        return ()
    if v.k == "sw":
        return (("A", v),)
    return (("S", v),)


def seq(its):
    out = []
    st = list(its)
    st.reverse()
    while st:
        it = st.pop()
        k = it[0]
        if k == "S" or k == "A":
            v = it[1]
            if v.k == "seq":
                st.extend(reversed(v.a[0]))
                continue
            if v is BOT:
                continue
            if v.k == "sw":
                it = ("A", v)
            else:
                it = ("S", v)
        elif k == "C":
            v = it[1]
            if v.k == "int":
                it = ("L", chr(v.a[0]))
                k = "L"
            elif v.k == "sw":
                w = lift(lambda x: seq([("C", x)]), v)
                st.append(("A", w))
                continue
        elif k == "F":
            r = each(it[1], it[2], it[3])
            if not (r.k == "seq" and len(r.a[0]) == 1 and r.a[0][0][0] == "F"):
                st.extend(reversed(items(r)))
                continue
            it = r.a[0][0]
        if it[0] == "L":
            if it[1] == "":
                continue
            if out and out[-1][0] == "L":
                out[-1] = ("L", out[-1][1] + it[1])
                continue
        elif it[0] == "E" and out and out[-1][0] == "S" and it[1].k == "app" and it[1].a[0] == "nth":
            v = out[-1][1]
            X, i = it[1].a[1]
            if v.k == "app" and v.a[0] == "take" and v.a[1] == (X, i):
                out[-1] = ("S", app("take", X, add(i, num(1))))
                continue
        out.append(it)
    if len(out) == 1 and out[0][0] in ("S", "A"):
        return out[0][1]
    return mk("seq", tuple(out))


def cat(*vs):
    its = []
    for v in vs:
        if v is BOT:
            return BOT
        its.extend(items(v))
    return seq(its)


def one(v):
    """single element list"""
    return seq([("E", v)])


def ch(v):
    return seq([("C", v)])


def as_lit(v):
    """python text of a literal string value or None"""
    if v.k != "seq":
        return None
    if not v.a[0]:
        return ""
    if len(v.a[0]) == 1 and v.a[0][0][0] == "L":
        return v.a[0][0][1]
    return None


def lit_possible(v, c):
    its = v.a[0]
    if its and its[0][0] == "L" and not c.startswith(its[0][1]):
        return False
    if its and its[-1][0] == "L" and not c.endswith(its[-1][1]):
        return False
    if sum(len(i[1]) for i in its if i[0] == "L") > len(c):
        return False
    return True


def ulen(s):
    return len(s.encode("utf-8", "surrogatepass"))


_lenm = {}


def slen(v):
    """length: bytes for text, elements for lists"""
    r = _lenm.get(v)
    if r is not None:
        return r
    if v.k == "sw":
        r = lift(slen, v)
    elif v.k == "seq":
        r = num(0)
        for it in v.a[0]:
            r = add(r, item_len(it))
    elif v.k == "app" and v.a[0] in LEN_PRESERVING:
        r = slen(v.a[1][0])
    elif v.k == "app" and v.a[0] == "range":
        d = sub(v.a[1][1], v.a[1][0])
        r = d if d.k in ("lin", "app", "sym", "elem", "idx") and lowerl(d) >= 0 else ite(icmp("le", v.a[1][1], v.a[1][0]), num(0), d)
    elif v.k == "app" and v.a[0] == "le_bytes" or v.k == "app" and v.a[0] == "be_bytes":
        r = num(4)
    else:
        r = mk("app", "len", (v,))
    _lenm[v] = r
    return r


LEN_PRESERVING = {"sort", "rev", "set"}


def item_len(it):
    k = it[0]
    if k == "L":
        return num(ulen(it[1]))
    if k == "E":
        return TR
    if k == "C":
        return app("utf8len", it[1])
    if k in ("S", "A"):
        return slen(it[1])
    src, n, body = it[1:]
    return sumof(src, n, slen(body))


def sumof(S, n, t):
    if t.k == "int":
        return mul(t, slen(S))
    return mk("app", "sum", (S, num(n), t))


def elem(S, n=0):
    return mk("elem", S, n)


def idx(e):
    S = None
    if e.k == "elem":
        S = e.a[0]
    elif e.k == "vfld" and e.a[0].k == "app" and e.a[0].a[0] == "find":
        S = e.a[0].a[1][0]
    if S is not None and S.k == "app" and S.a[0] == "range" and S.a[1][0] is F:
        return e
    return mk("idx", e)


_eachm = {}


def each(S, n, body):
    """concatenation of body over the elements of S"""
    key = (S, n, body)
    r = _eachm.get(key)
    if r is None:
        r = _each(S, n, body)
        _eachm[key] = r
    return r


def _each(S, n, body):
    if body is EMPTY:
        return EMPTY
    e = elem(S, n)
    if S is EMPTY or S is BOT:
        return EMPTY
    if body.k == "seq" and body.a[0] == (("E", e),):
        return S
    if body.k == "seq" and body.a[0] == (("C", e),) and S.k == "app" and S.a[0] == "chars":
        return S.a[1][0]
    if S.k == "sw":
        return lift(lambda s: each(s, n, replace(body, {e: elem(s, n)})), S)
    if S.k == "seq":
        its = S.a[0]
        uses_idx = occurs(body, idx(e))
        if len(its) == 1 and its[0][0] == "F":
            _, s2, m, b2 = its[0]
            one_e = b2.k == "seq" and len(b2.a[0]) == 1 and b2.a[0][0][0] == "E"
            m, b2 = clear_of(s2, m, b2, body)
            if one_e:
                e2 = elem(s2, m)
                sub_ = {e: b2.a[0][0][1], idx(e): idx(e2)}
                return each(s2, m, replace(body, sub_))
            if not uses_idx:
                return each(s2, m, flat(b2, e, body))
        elif not uses_idx and all(
            i[0] in ("E", "S", "F", "A", "L") for i in its
        ):
            return flat(S, e, body)
        elif uses_idx and all(i[0] == "E" for i in its):
            out = []
            for i, it in enumerate(its):
                out.extend(items(replace(body, {e: it[1], idx(e): num(i)})))
            return seq(out)
    if S.k == "app" and S.a[0] == "range":
        a, b = S.a[1]
        if a.k == "int" and b.k == "int" and b.a[0] - a.a[0] <= 64:
            out = []
            for i in range(a.a[0], b.a[0]):
                out.extend(items(replace(body, {e: num(i), idx(e): num(i - a.a[0])})))
            return seq(out)
    return mk("seq", (("F", S, n, body),))


def clear_of(S, n, b, body):
    """(level, b) of a binder over S with body b that captures nothing of another body"""
    import fvs
    f = fvs.fv(body)
    k = n
    if elem(S, k) in f:
        f = f | fvs.fv(b)
        while elem(S, k) in f:
            k += 1
        b = replace(b, {elem(S, n): elem(S, k), idx(elem(S, n)): idx(elem(S, k))})
    return k, b


def flat(S, e, body):
    """substitute each element of the sequence value S for e in body"""
    if S is BOT:
        return BOT
    if S.k == "sw":
        return lift(lambda s: flat(s, e, body), S)
    out = []
    n = e.a[1]
    for it in items(S):
        if it[0] == "E":
            out.extend(items(replace(body, {e: it[1]})))
        elif it[0] == "F":
            _, s2, m, b2 = it
            m, b2 = clear_of(s2, m, b2, body)
            out.append(("F", s2, m, flat(b2, e, body)))
        elif it[0] == "A":
            out.append(("A", flat(it[1], e, body)))
        elif it[0] == "S":
            s = it[1]
            k, _ = clear_of(s, n, EMPTY, body)
            out.extend(items(each(s, k, replace(body, {e: elem(s, k)}))))
        elif it[0] == "L":
            for c in it[1]:
                out.extend(items(replace(body, {e: num(ord(c))})))
        else:
            out.extend(items(replace(body, {e: it[1]})))
    return seq(out)


def factor(atom, kind, cases, chs, live):
    """common prefix and suffix of sequences chosen by a switch"""
    lists = [None if c is BOT else list(items(c)) for c in chs]
    ls = [l for l in lists if l is not None]
    pre = []
    while all(ls):
        h = ls[0][0]
        if all(l[0] == h for l in ls):
            pre.append(h)
            for l in ls:
                l.pop(0)
            continue
        if all(l[0][0] == "L" for l in ls):
            p = _cpre([l[0][1] for l in ls])
            if p:
                pre.append(("L", p))
                for l in ls:
                    l[0] = ("L", l[0][1][len(p):])
                    if not l[0][1]:
                        l.pop(0)
        break
    suf = []
    while all(ls):
        h = ls[0][-1]
        if all(l[-1] == h for l in ls):
            suf.append(h)
            for l in ls:
                l.pop()
            continue
        if all(l[-1][0] == "L" for l in ls):
            p = _cpre([l[-1][1][::-1] for l in ls])[::-1]
            if p:
                suf.append(("L", p))
                for l in ls:
                    l[-1] = ("L", l[-1][1][: len(l[-1][1]) - len(p)])
                    if not l[-1][1]:
                        l.pop()
        break
    if not pre and not suf:
        return None
    mids = tuple(BOT if l is None else seq(l) for l in lists)
    mid = build(atom, kind, cases, mids)
    return seq(pre + list(items(mid)) + suf[::-1])


def _cpre(ss):
    p = ss[0]
    for s in ss[1:]:
        i = 0
        while i < len(p) and i < len(s) and p[i] == s[i]:
            i += 1
        p = p[:i]
    return p


def expand(v):
    """sequence value as diagram over plain sequences (alternatives pulled out)"""
    if v.k != "seq":
        return v
    parts = [TR]
    acc = EMPTY
    for it in v.a[0]:
        if it[0] == "A":
            acc = rawcat(acc, it[1])
        else:
            acc = rawcat(acc, mk("seq", (it,)) if it[0] != "S" else it[1])
    return acc


def rawcat(a, b):
    memo = {}

    def go(x, y):
        if x is BOT or y is BOT:
            return BOT
        r = memo.get((x, y))
        if r is not None:
            return r
        m = None
        for v in (x, y):
            if v.k == "sw" and (m is None or v.a[0].id < m.a[0].id):
                m = v
        if m is None:
            r = cat(x, y)
        else:
            atom, kind = m.a[0], m.a[1]
            cs = all_cases(atom, kind, (x, y))
            r = build(
                atom,
                kind,
                cs,
                tuple(go(cof(x, atom, kind, c), cof(y, atom, kind, c)) for c in cs),
                raw=True,
            )
        memo[(x, y)] = r
        return r

    return go(a, b)


# ---------------------------------------------------------------- projections


def field(v, i, tag=None):
    if v.k == "agg":
        return v.a[2][i] if i < len(v.a[2]) else BOT
    if v.k == "fn":
        return v.a[1][i] if i < len(v.a[1]) else BOT
    if v.k == "sw":
        return lift(lambda x: field(x, i, tag), v)
    if v is BOT:
        return BOT
    if tag is not None:
        KNOWN_TAG.setdefault(v, tag)
    return mk("fld", v, i)


def vfield(v, var, i):
    if v.k == "agg":
        if v.a[1] != var:
            return BOT
        return v.a[2][i] if i < len(v.a[2]) else BOT
    if v.k == "sw":
        return lift(lambda x: vfield(x, var, i), v)
    if v is BOT:
        return BOT
    return mk("vfld", v, var, i)


def discr_switch(v, tag, ch):
    """switch on the variant of v"""
    n = len(ch)

    def f(x):
        if x.k != "agg" and x.k != "int":
            ENUM_OF.setdefault(x, tag)
        return switch(x, "e", tuple(range(n)), ch)

    if v.k == "sw":
        memo = {}

        def go(x):
            if x.k != "sw":
                return BOT if x is BOT else f(x)
            r = memo.get(x)
            if r is None:
                r = build(x.a[0], x.a[1], x.a[2], tuple(go(c) for c in x.a[3]))
                memo[x] = r
            return r

        return go(v)
    if v is BOT:
        return BOT
    return f(v)


# ---------------------------------------------------------------- rewriting


def args_terms(t):
    """direct subterms"""
    k, a = t.k, t.a
    if k in ("int", "flt", "sym", "bot", "phi"):
        return ()
    if k == "fld":
        return (a[0],)
    if k == "vfld":
        return (a[0],)
    if k == "agg":
        return a[2]
    if k == "fn":
        return a[1]
    if k == "app":
        return a[1]
    if k == "lin":
        return tuple(x for x, _ in a[1])
    if k == "elem":
        return (a[0],)
    if k == "idx":
        return (a[0],)
    if k == "ref":
        return tuple(p[1] for p in a[1] if p[0] == "i")
    if k == "sw":
        return (a[0],) + a[3]
    if k == "seq":
        out = []
        for it in a[0]:
            if it[0] == "L":
                continue
            if it[0] == "F":
                out.append(it[1])
                out.append(it[3])
            else:
                out.append(it[1])
        return tuple(out)
    raise Exception(k)


_occm = {}


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(args_terms(x))
    return seen


def occurs(t, x):
    if t is x:
        return True
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if y is x:
            return True
        if y.id < x.id and y.k not in ("sw", "seq", "agg"):
            # subterms are created before their users
            continue
        st.extend(args_terms(y))
    return False


APP_HOOK = [None]  # set by the models: smart application constructor


def app(name, *args):
    h = APP_HOOK[0]
    if h is not None:
        return h(name, args)
    return mk("app", name, tuple(args))


def rebuild(t, g):
    k, a = t.k, t.a
    if k in ("int", "flt", "sym", "bot", "phi"):
        return t
    if k == "fld":
        b = g(a[0])
        return t if b is a[0] else field(b, a[1], KNOWN_TAG.get(a[0]))
    if k == "vfld":
        b = g(a[0])
        return t if b is a[0] else vfield(b, a[1], a[2])
    if k == "agg":
        fs = tuple(g(x) for x in a[2])
        return t if fs == a[2] else agg(a[0], a[1], fs)
    if k == "fn":
        fs = tuple(g(x) for x in a[1])
        return t if fs == a[1] else mk("fn", a[0], fs)
    if k == "app":
        fs = tuple(g(x) for x in a[1])
        if fs == a[1]:
            return t
        if a[0] in ("fold", "prefold") and fs[0] is EMPTY:
            return fs[2].a[2][0]
        return app(a[0], *fs)
    if k == "lin":
        r = num(a[0])
        ch_ = False
        for x, n in a[1]:
            y = g(x)
            if y is not x:
                ch_ = True
            r = add(r, mul(num(n), y))
        return r if ch_ else t
    if k == "elem":
        b = g(a[0])
        return t if b is a[0] else elem(b, a[1])
    if k == "idx":
        b = g(a[0])
        if b is a[0]:
            return t
        return idx(b)
    if k == "ref":
        p = tuple(("i", g(e[1])) if e[0] == "i" else e for e in a[1])
        return t if p == a[1] else mk("ref", a[0], p)
    if k == "sw":
        at = g(a[0])
        ch_ = tuple(g(x) for x in a[3])
        if at is a[0]:
            if ch_ == a[3]:
                return t
            return build(at, a[1], a[2], ch_)
        if ENUM_OF.get(a[0]) and at.k not in ("sw", "agg", "int"):
            ENUM_OF.setdefault(at, ENUM_OF[a[0]])
        return switch(at, a[1], a[2], ch_)
    if k == "seq":
        out = []
        same = True
        for it in a[0]:
            if it[0] == "L":
                out.append(it)
            elif it[0] == "F":
                s, b = g(it[1]), g(it[3])
                if s is not it[1] or b is not it[3]:
                    same = False
                out.append(("F", s, it[2], b))
            else:
                x = g(it[1])
                if x is not it[1]:
                    same = False
                out.append((it[0], x))
        return t if same else seq(out)
    raise Exception(k)


def rewrite(t, f):
    """bottom-less rewriting: f(term) gives a replacement or None"""
    memo = {}

    def g(x):
        r = memo.get(x)
        if r is not None:
            return r
        r = f(x)
        if r is None:
            r = rebuild(x, g)
            if r is not x:
                r2 = f(r)
                if r2 is not None:
                    r = r2
        memo[x] = r
        return r

    return g(t)


def replace(t, m):
    """t with the keys of m replaced; elements only where they are free"""
    if not m:
        return t
    if any(k.k == "elem" or k.k == "idx" and k.a[0].k == "elem" for k in m):
        return subst(t, m)
    return rewrite(t, lambda x: m.get(x))


def subst(t, m):
    import fvs
    fv = fvs.fv
    keys = frozenset(k.a[0] if k.k == "idx" else k for k in m)
    elems = all(k.k == "elem" for k in keys)
    vals = frozenset().union(*[fv(v) for v in m.values()])
    memo = {}

    def scope(S, S2, n, body):
        """(level, body) of a binder over S, now over S2"""
        e = elem(S, n)
        if e in keys:
            return n, subst(body, {k: v for k, v in m.items() if k is not e and not (k.k == "idx" and k.a[0] is e)} or {BOT: BOT})
        if elem(S2, n) in vals and keys & fv(body):
            k = n
            used = {x.a[1] for x in vals | fv(body) if x.k == "elem" and (x.a[0] is S2 or x.a[0] is S)}
            while k in used:
                k += 1
            f = elem(S, k)
            return k, g(subst(body, {e: f, mk("idx", e): mk("idx", f)}))
        return n, g(body)

    def g(x):
        r = memo.get(x)
        if r is not None:
            return r
        r = m.get(x)
        if r is None:
            if elems and not (keys & fv(x)):
                r = x
            else:
                r = bind(x)
                if r is not x:
                    r2 = m.get(r)
                    if r2 is not None:
                        r = r2
        memo[x] = r
        return r

    def bind(x):
        if x.k == "seq" and any(i[0] == "F" for i in x.a[0]):
            out = []
            for it in x.a[0]:
                if it[0] == "F":
                    s2 = g(it[1])
                    out.append(("F", s2) + scope(it[1], s2, it[2], it[3]))
                else:
                    out.append(it if it[0] == "L" else (it[0], g(it[1])))
            return x if tuple(out) == x.a[0] else seq(out)
        if x.k == "app" and x.a[0] in fvs.BINDERS:
            a = x.a[1]
            s2 = g(a[0])
            pos = fvs.BINDERS[x.a[0]][0]
            n, b = scope(a[0], s2, a[1].a[0], a[pos])
            na = tuple(s2 if i == 0 else num(n) if i == 1 else b if i == pos else g(y) for i, y in enumerate(a))
            return x if na == a else app(x.a[0], *na)
        return rebuild(x, g)

    return g(t)


def restrict(t, atom, kind, case, extra=None):
    """deep restriction: assume atom is in case everywhere in t"""
    m = {}
    if kind == "e":
        p = pin(atom, kind, case)
        if p is not atom:
            m[atom] = p
    elif kind == "i":
        if case[0] == case[1]:
            m[atom] = num(case[0])
            if case[0] == 0 and atom.k == "app" and atom.a[0] == "len":
                m[atom.a[1][0]] = EMPTY
    elif case is not None:
        m[atom] = lit(case)
    if extra:
        m.update(extra)
    memo = {}

    def g(x):
        r = memo.get(x)
        if r is not None:
            return r
        r = m.get(x)
        if r is None:
            if x.k == "sw" and x.a[0] is atom:
                if kind == "e":
                    r = g(x.a[3][case])
                elif kind == "i":
                    ov = [
                        (c, k)
                        for c, k in zip(x.a[2], x.a[3])
                        if c[0] <= case[1] and case[0] <= c[1]
                    ]
                    if len(ov) == 1:
                        r = g(ov[0][1])
                    elif not ov:
                        r = BOT
                    else:
                        r = build(
                            atom,
                            "i",
                            tuple(
                                (max(c[0], case[0]), min(c[1], case[1])) for c, _ in ov
                            ),
                            tuple(g(k) for _, k in ov),
                        )
                else:
                    if case is None:
                        r = g(x.a[3][-1])
                    else:
                        r = g(cof(x, atom, "s", case))
            else:
                r = rebuild(x, g)
                r2 = m.get(r)
                if r2 is not None:
                    r = r2
        memo[x] = r
        return r

    return g(t)


def atoms(t):
    """all tested atoms anywhere in t, outermost first"""
    out = {}
    for x in subterms(t):
        if x.k == "sw":
            out[x.a[0]] = x
    return out


# ---------------------------------------------------------------- printing


_BUDGET = [None]


def show(t, d=0, lim=1500):
    """printed form, cut after lim nodes"""
    if d == 0:
        save = _BUDGET[0]
        _BUDGET[0] = lim
        try:
            return _show(t, 0)
        finally:
            _BUDGET[0] = save
    return _show(t, d)


def _show(t, d):
    if d > 40 or _BUDGET[0] <= 0:
        return "…"
    _BUDGET[0] -= 1
    k, a = t.k, t.a
    d += 1
    if k == "bot":
        return "⊥"
    if k == "int":
        return str(a[0])
    if k == "flt":
        return str(a[0])
    if k == "sym":
        return str(a[0])
    if k == "phi":
        return "φ" + str(a[0])
    if k == "fld":
        return "%s.%s" % (_show(a[0], d), fname(t))
    if k == "vfld":
        return "%s@%s.%s" % (_show(a[0], d), vname(a[0], a[1]), a[2])
    if k == "agg":
        tag = a[0] if isinstance(a[0], str) else str(a[0])
        if tag == "tuple":
            return "(" + ", ".join(_show(x, d) for x in a[2]) + ")"
        nm = VNAME.get((a[0], a[1])) or tag.split("::")[-1]
        if not a[2]:
            return nm
        return nm + "{" + ", ".join(_show(x, d) for x in a[2]) + "}"
    if k == "fn":
        return "fn<%s>" % a[0] + (
            "[" + ",".join(_show(x, d) for x in a[1]) + "]" if a[1] else ""
        )
    if k == "app":
        return "%s(%s)" % (a[0], ", ".join(_show(x, d) for x in a[1]))
    if k == "lin":
        s = " + ".join(
            (_show(x, d) if n == 1 else "%d*%s" % (n, _show(x, d))) for x, n in a[1]
        )
        return "(" + s + (" %+d" % a[0] if a[0] else "") + ")"
    if k == "elem":
        return "∈%s%s" % ("'" * a[1], _show(a[0], d))
    if k == "idx":
        return "#" + _show(a[0], d)
    if k == "ref":
        return "&mut %s%s" % (a[0], list(a[1]))
    if k == "seq":
        if not a[0]:
            return "[]"
        p = []
        for it in a[0]:
            if it[0] == "L":
                p.append(repr(it[1]))
            elif it[0] == "F":
                p.append("∀%s{%s}" % (_show(elem(it[1], it[2]), d), _show(it[3], d)))
            elif it[0] == "E":
                p.append("[" + _show(it[1], d) + "]")
            elif it[0] == "C":
                p.append("chr(" + _show(it[1], d) + ")")
            elif it[0] == "A":
                p.append("<" + _show(it[1], d) + ">")
            else:
                p.append(_show(it[1], d))
        return "⟨" + " ".join(p) + "⟩"
    if k == "sw":
        ps = []
        for c, x in zip(a[2], a[3]):
            if x is BOT:
                continue
            if a[1] == "i":
                cn = (
                    str(c[0])
                    if c[0] == c[1]
                    else "%s..%s"
                    % ("" if c[0] <= NEG else c[0], "" if c[1] >= POS else c[1])
                )
            elif a[1] == "e":
                cn = vname(a[0], c)
            else:
                cn = "_" if c is None else repr(c)
            ps.append("%s→%s" % (cn, _show(x, d)))
        return "{%s? %s}" % (_show(a[0], d), " | ".join(ps))
    return k


VNAME = {}
FNAME = {}


def fname(t):
    tag = KNOWN_TAG.get(t.a[0])
    return FNAME.get((tag, t.a[1]), t.a[1])


def vname(t, i):
    tag = ENUM_OF.get(t)
    if tag == "bool":
        return "FT"[i] if i < 2 else str(i)
    return VNAME.get((tag, i), str(i))
