"""Comparison of two summaries: equal, different (with a witness) or undecided."""
import random
import re
import time

import terms as T
import seqs as Q
import ev
from fvs import fv
from ev import En, Opaque, Undef

# ------------------------------------------------------------------ equality


class Limit(Exception):
    pass


def equal(a, b, budget=4000):
    """True when the two values are the same for all inputs"""
    st = [budget]
    memo = {}
    try:
        return eq(a, b, st, memo, 0)
    except Limit:
        return False


def eq(a, b, st, memo, d):
    if a is b:
        return True
    if a is T.BOT or b is T.BOT:
        return True
    key = (a, b)
    r = memo.get(key)
    if r is not None:
        return r
    st[0] -= 1
    if st[0] < 0 or d > 60:
        raise Limit()
    r = eq1(a, b, st, memo, d)
    memo[key] = r
    return r


def eq1(a, b, st, memo, d):
    # split on what is tested first
    for x in (a, b):
        if x.k == "sw":
            atom, kind, cases, kids = x.a
            return split(a, b, atom, kind, cases, st, memo, d)
    if a.k == "agg" and b.k == "agg":
        if a.a[:2] != b.a[:2]:
            return False
        return all(eq(x, y, st, memo, d + 1) for x, y in zip(a.a[2], b.a[2])) or deep(a, b, st, memo, d)
    if a.k == "seq" or b.k == "seq":
        r = eqseq(a, b, st, memo, d)
        if r is not None:
            return r
        return deep(a, b, st, memo, d)
    if a.k == b.k and a.k in ("fld", "vfld") and a.a[1:] == b.a[1:] and eq(a.a[0], b.a[0], st, memo, d + 1):
        return True
    if a.k == b.k == "app" and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
        if a.a[0] in ("fold", "prefold"):
            if eqfold(a.a[1], b.a[1], st, memo, d):
                return True
        elif a.a[0] not in ev.BINDERS and a.a[0] not in ("sort", "dedupby"):
            if all(eq(x, y, st, memo, d + 1) for x, y in zip(a.a[1], b.a[1])):
                return True
    return deep(a, b, st, memo, d)


def eqfold(x, y, st, memo, d):
    """accumulations over the same list: same start, same step"""
    if x[0] is not y[0] or len(x[2].a[2]) != len(y[2].a[2]):
        return False
    if not all(eq(p, q, st, memo, d + 1) for p, q in zip(x[2].a[2] + x[5:], y[2].a[2] + y[5:])):
        return False
    e = T.elem(x[0], 9000 + d)
    step = []
    for z in (x, y):
        m = {T.sym("§acc%d.%d" % (z[4].a[0], j)): T.sym("§acc%d.%d" % (900 + d, j)) for j in range(len(z[2].a[2]))}
        m[T.elem(z[0], z[1].a[0])] = e
        step.append(T.replace(z[3], m))
    return eq(step[0], step[1], st, memo, d + 1)


def eqseq(a, b, st, memo, d):
    x, y = list(T.items(a)), list(T.items(b))
    while x and y and x[0] == y[0]:
        x.pop(0)
        y.pop(0)
    while x and y and x[-1] == y[-1]:
        x.pop()
        y.pop()
    if not x and not y:
        return True
    if len(x) == len(y):
        good = True
        for i, j in zip(x, y):
            if i == j:
                continue
            if i[0] != j[0] or i[0] == "L":
                good = False
            elif i[0] == "F":
                if i[1] is not j[1]:
                    good = False
                else:
                    e = T.elem(i[1], 9000 + d)
                    p = T.replace(i[3], {T.elem(i[1], i[2]): e})
                    q = T.replace(j[3], {T.elem(j[1], j[2]): e})
                    good = eq(p, q, st, memo, d + 1)
            else:
                good = eq(i[1], j[1], st, memo, d + 1)
            if not good:
                break
        if good:
            return True
    a2, b2 = T.seq(x), T.seq(y)
    if (a2, b2) != (a, b) and not (x == list(T.items(a)) and y == list(T.items(b))):
        return eq(a2, b2, st, memo, d + 1)
    return None


def deep(a, b, st, memo, d):
    """split on a test inside one of the values"""
    for x in (a, b):
        for at, n in T.atoms(x).items():
            f = ev.fv(at)
            if f - fv(a) - fv(b):
                continue
            return split(a, b, at, n.a[1], n.a[2], st, memo, d)
    return False


def split(a, b, atom, kind, cases, st, memo, d):
    for i, c in enumerate(cases):
        cc = i if kind == "e" else c
        p = T.restrict(a, atom, kind, cc)
        q = T.restrict(b, atom, kind, cc)
        if p is a and q is b:
            raise Limit()
        if not eq(p, q, st, memo, d + 1):
            return False
    return True


# ------------------------------------------------------------------ inputs

TEXTS = [
    "", "a", "b", "foo", "bar", "foo bar", "a\nb", "\n", "x\n", "\tq", 'say "hi"', "back\\slash", "\\", "\\n", "é", "日本語",
    "a: b", ":", "key: value", "Content-Type", "Content-Type: text/plain; charset=UTF-8\n", "fuzzy", "c-format", "a\x04b", "\x04",
    "x\x00y", "\x00", "-1", "42", "file.rs", " ", " lead", "trail ", "two  spaces", "x" * 90, "word " * 30, "A", "Z", "aa", "ab",
    "#", "msgid", "\r", "\x08\x11\x12", "a,b", "a, b", "line one\nline two\nline three", "​", "ÿ",
    "a10", "a2", "Ab", "Project-Id-Version", "Plural-Forms", "X-Foo", "X-Bar", "Language", "\x7f", "a\rb", "a\x0bb", "tab\tin",
    "0", "1", "01", "nplurals=2; plural=(n != 1);",
]
INTS = [0, 1, 2, 3, 4, 5, 7, 10, 27, 28, 78, 79, 80, 81, 100, 255, 256, 1023, 1024, 1025, 65535, 65536, 0x950412DE, 0xDE120495, 2**32 - 1]


def near(x):
    """texts much like x"""
    out = [x.upper(), x.lower(), x.capitalize(), x + "x", "x" + x, x + " ", " " + x, x[:-1], x[1:], x + x]
    return [y for y in dict.fromkeys(out) if y != x]


class Gen(object):
    """values of a type; few distinct values per assignment so that
    comparisons between them come out both ways"""

    def __init__(self, facts, seed, texts=(), ints=()):
        self.facts = facts
        self.own = ()
        self.r = random.Random(seed)
        self.texts = list(TEXTS) + list(texts) * 3
        self.extra = list(texts)
        self.near = [y for x in texts[:60] if 1 < len(x) < 40 for y in near(x)]
        self.ints = list(INTS) + list(ints) * 3
        self.start()

    def start(self):
        r = self.r
        k = r.choice((1, 2, 3, 3, 5, 8))
        self.tp = [r.choice(self.texts) for _ in range(k)]
        if r.random() < 0.5:
            self.tp.append("")
        if r.random() < 0.3:
            self.tp.append(r.choice(self.tp) + r.choice(self.texts))
        if self.extra and r.random() < 0.6:
            self.tp.append(r.choice(self.extra))
        if self.near and r.random() < 0.3:
            self.tp.append(r.choice(self.near))
        self.ip = [r.choice(self.ints) for _ in range(r.choice((1, 2, 3)))] + [r.choice((0, 1, 2, 3))]
        self.optp = r.choice((0.1, 0.5, 0.9))
        self.lens = r.choice(((0, 1), (1, 2), (0, 1, 2, 3), (2, 3, 4)))
        self.boolp = r.choice((0.1, 0.5, 0.9))
        self.relp = r.choice((0, 0, 0.5, 0.9))
        self.made = {}

    def vary(self, x):
        """a value much like x"""
        r = self.r
        if isinstance(x, list):
            x = list(x)
            k = r.random()
            if k < 0.4:
                r.shuffle(x)
            elif k < 0.6 and x:
                del x[r.randrange(len(x))]
            elif k < 0.7 and x:
                x.append(r.choice(x))
            elif k < 0.85 and x:
                j = r.randrange(len(x))
                x[j] = self.vary(x[j])
            return x
        if isinstance(x, tuple) and x:
            if r.random() < 0.15:
                return x
            x = list(x)
            for _ in range(r.choice((1, 1, 1, 2, 3))):
                j = r.randrange(len(x))
                x[j] = self.vary(x[j])
            return tuple(x)
        if isinstance(x, En):
            return En(x.v, [self.vary(y) for y in x.f])
        if isinstance(x, str):
            return self.text()
        return x

    def text(self):
        return self.r.choice(self.tp)

    def int(self, lo=0, hi=1 << 64):
        for _ in range(8):
            x = self.r.choice(self.ip)
            if lo <= x < hi:
                return x
        return lo

    def list(self, f):
        return [f() for _ in range(self.r.choice(self.lens))]

    def opt(self, f):
        return ev.some(f()) if self.r.random() < self.optp else ev.NONE

    def bool(self):
        return int(self.r.random() < self.boolp)

    def ty(self, i):
        F = self.facts
        t = F.types[i]
        k = t["k"]
        if k in ("ref", "ptr"):
            return self.ty(t["to"])
        old = self.made.get(i)
        if old and self.r.random() < self.relp:
            return self.vary(self.r.choice(old))
        v = self.fresh(i, t, k)
        if isinstance(v, (list, tuple)):
            self.made.setdefault(i, []).append(v)
        return v

    def fresh(self, i, t, k):
        F = self.facts
        if k == "str":
            return self.text()
        if k == "bool":
            return self.bool()
        if k == "char":
            x = self.text()
            return ord(self.r.choice(x)) if x else 97
        if k == "int":
            w = {"u8": 8, "u16": 16, "u32": 32}.get(t["s"], 64)
            return self.int(0, 1 << w)
        if k == "tuple":
            return tuple(self.ty(x) for x in t["args"])
        if k in ("slice", "array"):
            return self.list(lambda: self.ty(t["to"]))
        if k == "adt":
            p = t["adt"]
            a = t.get("args") or []
            s = p.split("::")[-1]
            if s in ("String", "PathBuf", "Path", "OsString", "OsStr"):
                return self.text()
            if s in ("Box", "Rc", "Arc"):
                return self.ty(a[0])
            if s == "Cow":
                return self.ty(a[-1])
            if s in ("Vec", "VecDeque"):
                return self.list(lambda: self.ty(a[0]))
            if s == "Option":
                return self.opt(lambda: self.ty(a[0]))
            if s in ("HashMap", "BTreeMap"):
                return {ev.key_of(self.ty(a[0])): self.ty(a[1]) for _ in range(self.r.choice(self.lens))}
            d = F.adts.get(p)
            if d and d["local"]:
                if d["kind"] == "struct":
                    return tuple(self.ty(f["ty"]) for f in d["variants"][0]["fields"])
                if d["kind"] == "enum":
                    j = self.r.randrange(len(d["variants"]))
                    return En(j, [self.ty(f["ty"]) for f in d["variants"][j]["fields"]])
        raise Opaque("no values of type " + t["s"])


def constants(*ts):
    texts, ints = {}, {}
    for t in ts:
        for x in T.subterms(t):
            if x.k == "int":
                for d in (-1, 0, 1):
                    if 0 <= x.a[0] + d < 1 << 64:
                        ints[x.a[0] + d] = 1
            elif x.k == "seq":
                for it in x.a[0]:
                    if it[0] == "L":
                        texts[it[1]] = 1
            elif x.k == "sw":
                if x.a[1] == "i":
                    for lo, hi in x.a[2]:
                        for v in (lo, hi):
                            for d in (-1, 0, 1):
                                if 0 <= v + d < 1 << 63:
                                    ints[v + d] = 1
                elif x.a[1] == "s":
                    for c in x.a[2]:
                        if c is not None:
                            texts[c] = 1
    chars = [chr(i) for i in ints if 0 < i < 0x110000 and not 0xD800 <= i < 0xE000 and (i > 31 or i in (4, 8, 9, 10, 11, 12, 13, 17, 18))]
    if len(chars) > 200:
        chars = chars[:200]
    return list(texts) + ["k" + c for c in chars[:40]], [i for i in ints if i < 5000 or i > 1 << 30]


def plain(x):
    if isinstance(x, En):
        return "%d(%s)" % (x.v, ", ".join(plain(y) for y in x.f)) if x.f else "%d" % x.v
    if isinstance(x, tuple):
        return "(" + ", ".join(plain(y) for y in x) + ")"
    if isinstance(x, list):
        return "[" + ", ".join(plain(y) for y in x) + "]"
    if isinstance(x, dict):
        return "{" + ", ".join("%s: %s" % (plain(k), plain(v)) for k, v in x.items()) + "}"
    return repr(x)


SAFE = re.compile(r'[^\s,:"\\#~|\x00-\x1f]+')


def salted(r, v, texts, ints):
    """a value like v with something in it that only the code mentions"""
    spots = []

    def walk(x, put):
        if isinstance(x, str):
            spots.append((x, put))
        elif isinstance(x, En):
            for j, y in enumerate(x.f):
                walk(y, lambda z, j=j: put(En(x.v, x.f[:j] + (z,) + x.f[j + 1 :])))
        elif isinstance(x, tuple):
            for j, y in enumerate(x):
                walk(y, lambda z, j=j: put(x[:j] + (z,) + x[j + 1 :]))
        elif isinstance(x, list):
            if x and not isinstance(x[0], int):
                spots.append((x, put))
                for j, y in enumerate(x):
                    walk(y, lambda z, j=j: put(x[:j] + [z] + x[j + 1 :]))
        elif isinstance(x, dict):
            for k, y in x.items():
                walk(y, lambda z, k=k: put({a: (z if a == k else b) for a, b in x.items()}))
                if isinstance(k, str) and texts:
                    spots.append((k, lambda z, k=k: put({(z if a == k and z not in x else a): b for a, b in x.items()})))

    walk(v, lambda z: z)
    if not spots:
        return v
    x, put = r.choice(spots)
    if isinstance(x, list):
        small = [i for i in ints if 3 <= i <= 300]
        if not small:
            return v
        n = r.choice(small)
        return put((x * (n // len(x) + 1))[:n])
    if ints and (not texts or r.random() < 0.3):
        n = r.choice(ints)
        return put(x + "x" * (n - len(x.encode("utf-8", "surrogatepass"))) if n <= 3000 else x)
    if not texts:
        return v
    t = r.choice(texts)
    return put(r.choice((t, t, t + x, x + t)))


class Result(object):
    def __init__(self, verdict, why="", witness=None, samples=0):
        self.verdict, self.why, self.witness, self.samples = verdict, why, witness, samples


def search(code, spec, inputs, facts, seed=1, n=600, funs=None, limit=20.0, assume=None, agree=None, orders=1):
    """an assignment at which the summaries differ.

    inputs: {sym: type index | callable(Gen)}"""
    tx, ix = constants(code, spec)
    known = [set(x) for x in constants(spec)]
    own = constants(code)
    own = [y for x in own[0] if x not in known[0] for y in ((x, x[1:]) if len(x) == 2 and x[0] == "k" else (x,)) if SAFE.fullmatch(y)], [x for x in own[1] if x not in known[1]]
    t0 = time.time()
    done = 0
    why = ""
    for i in range(n):
        if time.time() - t0 > limit:
            break
        g = Gen(facts, "%d:%d" % (seed, i), tx, ix)
        g.own = own[1]
        try:
            val = {}
            for s, ty in inputs.items():
                val[s] = ty(g) if callable(ty) else g.ty(ty)
                if i % 3 == 2 and (own[0] or own[1]):
                    val[s] = salted(g.r, val[s], *own)
        except Opaque as x:
            return Result("undecided", str(x))
        try:
            for o in range(orders):
                E = ev.Eval(val, funs(val, g) if callable(funs) else funs, hseed=i * 10 + o)
                if assume is not None and not E.truth(assume):
                    continue
                try:
                    s = E(spec)
                except Undef:
                    continue
                try:
                    c = E(code)
                except Undef as x:
                    why = "undefined " + str(x)
                    continue
                done += 1
                if not (agree or ev.same)(c, s):
                    return Result(
                        "different",
                        "",
                        {"inputs": {T.show(k): plain(v)[:600] for k, v in val.items()}, "code": plain(c)[:800], "specified": plain(s)[:800]},
                        done,
                    )
        except Opaque as x:
            why = str(x)
            continue
        except (TypeError, IndexError, KeyError, AttributeError, ValueError, OverflowError, RecursionError) as x:
            why = "%s: %s" % (type(x).__name__, x)
            continue
    return Result("undecided", why or "no witness", None, done)


def orders(code, inputs, facts, seed=1, n=400, limit=20.0):
    """an assignment at which the result depends on hash iteration order"""
    t0 = time.time()
    done = 0
    for i in range(n):
        if time.time() - t0 > limit:
            break
        g = Gen(facts, "%d:%d" % (seed, i))
        try:
            val = {s: ty(g) if callable(ty) else g.ty(ty) for s, ty in inputs.items()}
            a, b = [ev.Eval(val, None, hseed=i * 10 + o)(code) for o in (0, 1)]
        except (Opaque, Undef, TypeError, IndexError, KeyError, AttributeError, ValueError, OverflowError, RecursionError):
            continue
        done += 1
        if not ev.same(a, b):
            w = {T.show(k): plain(v)[:600] for k, v in val.items()}
            return Result("different", "", {"inputs": w, "one order": plain(a)[:800], "another": plain(b)[:800]}, done)
    return Result("undecided", "no witness", None, done)


def compare(code, spec, inputs, facts, **kw):
    b = kw.pop("budget", 4000)
    if code is spec or equal(code, spec, b):
        return Result("equal", "identical" if code is spec else "by cases")
    return search(code, spec, inputs, facts, **kw)
