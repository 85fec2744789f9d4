"""Evaluation of summary terms at one assignment of the inputs.

Used to tell a real difference between two summaries from two notations of
the same value: a mismatch is only reported with an assignment of the inputs
at which the closed forms take different values.

values: int (also bool, char), str, list, tuple (struct), En (enum), dict (map)
"""
import unicodedata
import random
import functools

import terms as T
import seqs as Q
from fvs import fv, BINDERS, SA, SB


class Opaque(Exception):
    """the term contains something without a known meaning"""


class Undef(Exception):
    """the value does not exist at this assignment"""


class En(object):
    __slots__ = ("v", "f")

    def __init__(self, v, f=()):
        self.v, self.f = v, tuple(f)

    def __eq__(self, o):
        return isinstance(o, En) and self.v == o.v and same(self.f, o.f)

    def __hash__(self):
        return hash(("En", self.v))

    def __repr__(self):
        return "#%d%s" % (self.v, list(self.f) if self.f else "")


NONE = En(0)


def some(x):
    return En(1, (x,))


def ok(x):
    return En(0, (x,))


def err(x):
    return En(1, (x,))


def tobytes(x):
    return list(x.encode("utf-8", "surrogatepass")) if isinstance(x, str) else list(x)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (str, list)) and isinstance(b, (str, list)):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, str) or isinstance(b, str):
            a, b = tobytes(a), tobytes(b)
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, En) and isinstance(b, En):
        return a.v == b.v and same(a.f, b.f)
    if isinstance(a, En) and isinstance(b, int):
        return a.v == b
    if isinstance(b, En) and isinstance(a, int):
        return b.v == a
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) or isinstance(b, float):
        try:
            return abs(a - b) < 1e-9
        except TypeError:
            return False
    return a == b


def order(a, b):
    """total order used by Ord: -1, 0, 1"""
    if isinstance(a, En) and isinstance(b, En):
        if a.v != b.v:
            return -1 if a.v < b.v else 1
        return order(a.f, b.f)
    if isinstance(a, str) and isinstance(b, str):
        a, b = a.encode("utf-8", "surrogatepass"), b.encode("utf-8", "surrogatepass")
        return (a > b) - (a < b)
    if isinstance(a, (list, tuple, str)) and isinstance(b, (list, tuple, str)):
        if isinstance(a, str):
            a = tobytes(a)
        if isinstance(b, str):
            b = tobytes(b)
        for x, y in zip(a, b):
            c = order(x, y)
            if c:
                return c
        return (len(a) > len(b)) - (len(a) < len(b))
    return (a > b) - (a < b)


def key_of(x):
    if isinstance(x, list):
        return tuple(key_of(y) for y in x)
    return x


def width_char(c):
    o = ord(c)
    if o == 0:
        return 0
    if unicodedata.category(c) in ("Cc",):
        return None
    if unicodedata.combining(c) or o in (0x200B, 0x200C, 0x200D, 0xFEFF):
        return 0
    return 2 if unicodedata.east_asian_width(c) in "WF" else 1


def width(s):
    n = 0
    for c in s:
        w = width_char(c)
        n += 1 if w is None else w
    return n


ESC = {'"': '\\"', "\n": "\\n", "\r": "\\r", "\t": "\\t", "\x11": "\\v", "\x08": "\\b", "\x12": "\\f", "\\": "\\\\"}
UNESC = {v[1]: k for k, v in ESC.items()}


LOOPS = 40000


def escape(s):
    return "".join(ESC.get(c, c) for c in s)


def unescape(s):
    out = []
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if i + 1 >= len(s):
                return err(("eos", s))
            r = UNESC.get(s[i + 1])
            if r is None:
                return err(("bad", s, s[i + 1]))
            out.append(r)
            i += 2
        else:
            out.append(s[i])
            i += 1
    return ok("".join(out))


def wrap(s, w):
    """a wrapping of a text: pieces of at most w columns broken after blanks
    or newlines, never inside an escape"""
    out = []
    cur = ""
    i = 0
    words = []
    while i < len(s):
        j = i
        while j < len(s) and s[j] != " ":
            j += 1
        while j < len(s) and s[j] == " ":
            j += 1
        words.append(s[i:j])
        i = j
    for x in words:
        if cur and width(cur) + width(x) > w:
            out.append(cur)
            cur = ""
        cur += x
    if cur or not out:
        out.append(cur)
    return out


def natcmp(a, b):
    import re
    # digits compare as numbers, other characters one by one, blanks ignored
    i = j = 0
    while True:
        while i < len(a) and a[i].isspace():
            i += 1
        while j < len(b) and b[j].isspace():
            j += 1
        if i >= len(a) or j >= len(b):
            x, y = len(a) - i, len(b) - j
            return (x > 0) - (y > 0)
        if a[i].isdigit() and b[j].isdigit():
            m, n = i, j
            while m < len(a) and a[m].isdigit():
                m += 1
            while n < len(b) and b[n].isdigit():
                n += 1
            x, y = int(a[i:m]), int(b[j:n])
            if x != y:
                return -1 if x < y else 1
            i, j = m, n
            continue
        if a[i] != b[j]:
            return -1 if a[i] < b[j] else 1
        i += 1
        j += 1


def words(s, ws):
    out = []
    cur = ""
    for c in s:
        if c in ws:
            if cur:
                out.append(cur)
            cur = ""
        else:
            cur += c
    if cur:
        out.append(cur)
    return out


def lines(s):
    if s == "":
        return []
    x = s.split("\n")
    if x[-1] == "":
        x.pop()
    return [y[:-1] if y.endswith("\r") else y for y in x]


def strip_matches(s, p, end):
    if p == "":
        return s
    while (s.endswith(p) if end else s.startswith(p)):
        s = s[: -len(p)] if end else s[len(p):]
    return s


def text(x):
    if isinstance(x, str):
        return x
    if isinstance(x, list) and not x:
        return ""
    if isinstance(x, list):
        return bytes(x).decode("utf-8")
    raise Opaque("text")


def lst(x):
    if isinstance(x, list):
        return x
    if isinstance(x, str):
        return tobytes(x)
    raise Opaque("list")


def intv(x):
    if isinstance(x, En):
        return x.v
    if isinstance(x, (int, float)):
        return x
    raise Opaque("int")


class Eval(object):
    def __init__(self, val, funs=None, hseed=0, budget=400000):
        self.val = val  # sym term -> value
        self.funs = funs or {}
        self.env = {}
        self.memo = {}
        self.hseed = hseed
        self.budget = budget
        self.io = {}

    def __call__(self, t):
        k = t.k
        if k == "int" or k == "flt":
            return t.a[0]
        free = fv(t)
        if free:
            key = (t, tuple(sorted((e.id, self.env[e][1]) for e in free if e in self.env)))
        else:
            key = t
        m = self.memo.get(key)
        if m is not None:
            if len(m) == 2:
                raise Undef(m[1])
            return m[0]
        self.budget -= 1
        if self.budget < 0:
            raise Opaque("budget")
        try:
            r = self.ev(t)
        except Undef as x:
            self.memo[key] = (None, str(x))
            raise
        self.memo[key] = (r,)
        return r

    def ev(self, t):
        k, a = t.k, t.a
        if k == "sym":
            if t in self.env:
                return self.env[t][0]
            if t in self.val:
                return self.val[t]
            if a[0].startswith("const:") or a[0].startswith("static:"):
                raise Opaque(a[0])
            raise Opaque("sym " + a[0])
        if k == "sw":
            try:
                c = self.child(t)
            except Undef:
                # diagrams are ordered: a question can come before the one that makes it meaningful
                rs = [self(x) for x in a[3]]
                if any(r != rs[0] for r in rs[1:]):
                    raise
                return rs[0]
            return self(c)
        if k == "fld":
            x = self(a[0])
            if isinstance(x, tuple):
                return x[a[1]]
            raise Opaque("field")
        if k == "vfld":
            x = self(a[0])
            if isinstance(x, En):
                if x.v != a[1]:
                    raise Undef("variant")
                return x.f[a[2]]
            raise Opaque("vfield")
        if k == "agg":
            fs = tuple(self(x) for x in a[2])
            if a[0] in T.ENUM_VARIANTS and a[0] not in T.STRUCT_ARITY and a[0] != "tuple":
                return En(a[1], fs)
            return fs
        if k == "lin":
            r = a[0]
            for x, n in a[1]:
                r += n * intv(self(x))
            return r
        if k == "seq":
            return self.seq(a[0])
        if k == "elem":
            if t in self.env:
                return self.env[t][0]
            raise Opaque("unbound element")
        if k == "idx":
            return self.idx(a[0])
        if k == "app":
            return self.app(a[0], a[1], t)
        if k == "bot":
            raise Undef("bot")
        raise Opaque(k)

    def idx(self, e):
        if e in self.env:
            return self.env[e][1]
        if e.k == "vfld" and e.a[0].k == "app" and e.a[0].a[0] == "find":
            i = self.findix(e.a[0])
            if i is None:
                raise Undef("find")
            return i
        if e.k == "app" and e.a[0] == "nth":
            return intv(self(e.a[1][1]))
        if e.k == "sw":
            return self.idx(self.child(e))
        if e.k == "idx":
            return self.idx(e.a[0])
        raise Opaque("index " + T.show(e)[:300])

    def child(self, t):
        atom, kind, cases, kids = t.a
        v = self(atom)
        if kind == "s":
            if not isinstance(v, str):
                v = text(v)
            for c, x in zip(cases, kids):
                if c is None or c == v:
                    return x
            raise Undef("case")
        v = intv(v)
        if kind == "e":
            for c, x in zip(cases, kids):
                if c == v:
                    return x
        else:
            for c, x in zip(cases, kids):
                if c[0] <= v <= c[1]:
                    return x
        raise Undef("case")

    def seq(self, its):
        parts = []
        for it in its:
            k = it[0]
            if k == "L":
                parts.append(it[1])
            elif k == "C":
                parts.append(chr(intv(self(it[1]))))
            elif k == "E":
                parts.append([self(it[1])])
            elif k == "F":
                S, n, b = it[1:]
                e = T.elem(S, n)
                for v in self.each(S, e):
                    parts.append(self(b))
            else:
                parts.append(self(it[1]))
        return join_parts(parts)

    def each(self, S, e):
        xs = self.listof(S)
        save = self.env.get(e)
        try:
            for i, x in enumerate(xs):
                self.env[e] = (x, (i, key_token(x)))
                self.env[e] = (x, i)
                yield i
        finally:
            if save is None:
                self.env.pop(e, None)
            else:
                self.env[e] = save

    def listof(self, S):
        x = self(S)
        if isinstance(x, str):
            return tobytes(x)
        if isinstance(x, list):
            return x
        raise Opaque("list")

    def findix(self, t):
        S, n, C = t.a[1]
        e = T.elem(S, n.a[0])
        for i in self.each(S, e):
            if intv(self(C)):
                return i
        return None

    def truth(self, t):
        return bool(intv(self(t)))

    def app(self, name, args, t):
        if name in self.funs:
            return self.funs[name](*[self(x) for x in args])
        if name == "find":
            i = self.findix(t)
            if i is None:
                return NONE
            return some(self.listof(args[0])[i])
        if name == "sum":
            S, n, b = args
            e = T.elem(S, n.a[0])
            r = 0
            for i in self.each(S, e):
                r += intv(self(b))
            return r
        if name == "remain":
            return len(self.listof(args[0])) - 1 - self.idx(args[1])
        if name in ("presum", "pre", "anybefore"):
            S, n, b, x = args
            lim = intv(self(x))
            e = T.elem(S, n.a[0])
            r = 0
            parts = []
            for i in self.each(S, e):
                if i >= lim:
                    break
                v = self(b)
                if name == "presum":
                    r += intv(v)
                elif name == "pre":
                    parts.append(v)
                elif intv(v):
                    r = 1
            return join_parts(parts) if name == "pre" else r
        if name in ("fold", "prefold"):
            S, n, V, N, j = args[:5]
            lim = None
            if name == "prefold":
                lim = intv(self(args[5]))
            e = T.elem(S, n.a[0])
            acc = [self(x) for x in V.a[2]]
            syms = [T.mk("sym", "§acc%d.%d" % (j.a[0], i)) for i in range(len(acc))]
            save = [self.env.get(s) for s in syms]
            self.foldn = getattr(self, "foldn", 0)
            try:
                for i in self.each(S, e):
                    if lim is not None and i >= lim:
                        break
                    self.foldn += 1
                    for s, v in zip(syms, acc):
                        self.env[s] = (v, ("acc", self.foldn))
                    acc = [self(x) for x in N.a[2]]
            finally:
                for s, v in zip(syms, save):
                    if v is None:
                        self.env.pop(s, None)
                    else:
                        self.env[s] = v
            return acc[0]
        if name in ("while", "wany"):
            V, C, N, d, x = args
            acc = [self(v) for v in V.a[2]]
            syms = [T.mk("sym", "§acc%d.%d" % (d.a[0], i)) for i in range(len(acc))]
            save = [self.env.get(s) for s in syms]
            self.foldn = getattr(self, "foldn", 0)
            try:
                for _ in range(LOOPS):
                    self.foldn += 1
                    for s, v in zip(syms, acc):
                        self.env[s] = (v, ("acc", self.foldn))
                    if name == "wany" and intv(self(x)):
                        return 1
                    if not intv(self(C)):
                        return 0 if name == "wany" else acc[x.a[0]]
                    acc = [self(v) for v in N.a[2]]
                raise Opaque("loop")
            finally:
                for s, v in zip(syms, save):
                    if v is None:
                        self.env.pop(s, None)
                    else:
                        self.env[s] = v
        if name in ("sort", "dedupby"):
            xs = list(self.listof(args[0]))

            def cmp(x, y):
                self.foldn = getattr(self, "foldn", 0) + 1
                sa, sb = self.env.get(SA), self.env.get(SB)
                self.env[SA] = (x, ("s", self.foldn))
                self.env[SB] = (y, ("s", self.foldn))
                try:
                    return intv(self(args[1])) - 1
                finally:
                    for s, v in ((SA, sa), (SB, sb)):
                        if v is None:
                            self.env.pop(s, None)
                        else:
                            self.env[s] = v

            if name == "dedupby":
                out = []
                for x in xs:
                    if not out or cmp(x, out[-1]) == -1:
                        out.append(x)
                return out
            return sorted(xs, key=functools.cmp_to_key(cmp))
        h = FUN.get(name)
        if h is None:
            if name.startswith("as_u"):
                w = int(name[4:]) if name[4:].isdigit() else 64
                return intv(self(args[0])) & ((1 << w) - 1)
            if name.startswith("parse_"):
                return parse(text(self(args[0])), name[6:])
            raise Opaque(name)
        if h in WITH_SELF:
            return h(self, *[self(x) for x in args])
        return h(*[self(x) for x in args])


def key_token(x):
    return 0


def join_parts(parts):
    parts = [p for p in parts if not (isinstance(p, (str, list)) and len(p) == 0)]
    if not parts:
        return ""
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    out = []
    for p in parts:
        if isinstance(p, str):
            out.extend(tobytes(p))
        elif isinstance(p, list):
            out.extend(p)
        else:
            raise Opaque("concat")
    return out


def parse(s, ty):
    y = s[1:] if s.startswith("+") else s
    lim = {"u8": 1 << 8, "u16": 1 << 16, "u32": 1 << 32}.get(ty, 1 << 64)
    if ty in ("usize", "u8", "u16", "u32", "u64"):
        if y and y.isascii() and y.isdigit() and int(y) < lim:
            return ok(int(y))
        return err("parse")
    raise Opaque("parse")


FUN = {}
WITH_SELF = set()


def fun(*names):
    def d(f):
        for n in names:
            FUN[n] = f
        return f

    return d


def sfun(*names):
    def d(f):
        for n in names:
            FUN[n] = f
        WITH_SELF.add(f)
        return f

    return d


@fun("len")
def f_len(x):
    if isinstance(x, str):
        return len(x.encode("utf-8", "surrogatepass"))
    return len(lst(x))


@fun("nth")
def f_nth(x, i):
    x = lst(x)
    if not 0 <= i < len(x):
        raise Undef("nth")
    return x[i]


@fun("skip")
def f_skip(x, i):
    if i < 0:
        raise Undef("skip")
    return lst(x)[i:]


@fun("take")
def f_take(x, i):
    if i < 0:
        raise Undef("take")
    return lst(x)[:i]


@fun("rev")
def f_rev(x):
    return lst(x)[::-1]


@fun("range")
def f_range(a, b):
    if b - a > 10000:
        raise Opaque("range")
    return list(range(a, b))


@fun("set")
def f_set(x, i, v):
    x = list(lst(x))
    if not 0 <= i < len(x):
        raise Undef("set")
    x[i] = v
    return x


@fun("sub")
def f_sub(s, a, b):
    if isinstance(s, list):
        if not 0 <= a <= b <= len(s):
            raise Undef("sub")
        return s[a:b]
    y = s.encode("utf-8")
    if not 0 <= a <= b <= len(y):
        raise Undef("sub")
    try:
        return y[a:b].decode("utf-8")
    except UnicodeDecodeError:
        raise Undef("boundary")


@fun("boundary")
def f_boundary(s, a):
    y = text(s).encode("utf-8")
    if a < 0 or a > len(y):
        return 0
    return int(a == len(y) or (y[a] & 0xC0) != 0x80)


@fun("split_once")
def f_split_once(s, p):
    s, p = text(s), text(p)
    i = s.find(p)
    return NONE if i < 0 else some((s[:i], s[i + len(p):]))


@fun("rsplit_once")
def f_rsplit_once(s, p):
    s, p = text(s), text(p)
    i = s.rfind(p)
    return NONE if i < 0 else some((s[:i], s[i + len(p):]))


@fun("split")
def f_split(s, p):
    return text(s).split(text(p))


@fun("starts")
def f_starts(s, p):
    return int(text(s).startswith(text(p)))


@fun("ends")
def f_ends(s, p):
    return int(text(s).endswith(text(p)))


@fun("trim")
def f_trim(s):
    return text(s).strip(Q.WS)


@fun("trim_start")
def f_trim_start(s):
    return text(s).lstrip(Q.WS)


@fun("trim_end")
def f_trim_end(s):
    return text(s).rstrip(Q.WS)


@fun("trim_start_matches")
def f_tsm(s, p):
    return strip_matches(text(s), text(p), False)


@fun("trim_end_matches")
def f_tem(s, p):
    return strip_matches(text(s), text(p), True)


@fun("split_aws")
def f_saws(s):
    return words(text(s), Q.WS_ASCII)


@fun("split_ws")
def f_sws(s):
    return words(text(s), Q.WS)


@fun("lines")
def f_lines(s):
    return lines(text(s))


@fun("iolines")
def f_iolines(s):
    b = bytes(lst(s)) if isinstance(s, list) else s.encode("utf-8")
    out = []
    xs = b.split(b"\n")
    if xs[-1] == b"":
        xs.pop()
    for x in xs:
        if x.endswith(b"\r"):
            x = x[:-1]
        try:
            out.append(ok(x.decode("utf-8")))
        except UnicodeDecodeError:
            out.append(err("decode"))
    return out


@fun("chars")
def f_chars(s):
    return [ord(c) for c in text(s)]


@fun("unchars")
def f_unchars(x):
    return "".join(chr(c) for c in lst(x))


@fun("init")
def f_init(s):
    return text(s)[:-1]


@fun("lastchar")
def f_lastchar(s):
    s = text(s)
    if not s:
        raise Undef("lastchar")
    return ord(s[-1])


@fun("tailchars")
def f_tailchars(s):
    return text(s)[1:]


@fun("dec")
def f_dec(x):
    return str(intv(x))


@fun("utf8len")
def f_utf8len(x):
    return len(chr(x).encode("utf-8", "surrogatepass"))


@fun("mul")
def f_mul(a, b):
    return intv(a) * intv(b)


@fun("div")
def f_div(a, b):
    if b == 0:
        raise Undef("div")
    return a // b


@fun("rem")
def f_rem(a, b):
    if b == 0:
        raise Undef("rem")
    return a % b


@fun("le32")
def f_le32(x):
    x = lst(x)
    if len(x) != 4:
        raise Undef("le32")
    return int.from_bytes(bytes(x), "little")


@fun("be32")
def f_be32(x):
    x = lst(x)
    if len(x) != 4:
        raise Undef("be32")
    return int.from_bytes(bytes(x), "big")


@fun("bswap")
def f_bswap(x):
    return int.from_bytes((x & 0xFFFFFFFF).to_bytes(4, "little"), "big")


@fun("le_bytes")
def f_le_bytes(x):
    return list((x & 0xFFFFFFFF).to_bytes(4, "little"))


@fun("be_bytes")
def f_be_bytes(x):
    return list((x & 0xFFFFFFFF).to_bytes(4, "big"))


@fun("lossy")
def f_lossy(x):
    return x if isinstance(x, str) else bytes(lst(x)).decode("utf-8", "replace")


@fun("from_utf8")
def f_from_utf8(x):
    if isinstance(x, str):
        return ok(x)
    try:
        return ok(bytes(lst(x)).decode("utf-8"))
    except UnicodeDecodeError:
        return err("utf8")


FUN["escape"] = lambda s: escape(text(s))
FUN["unescape"] = lambda s: unescape(text(s))
FUN["wrap"] = lambda s, w: wrap(text(s), intv(w))
FUN["width"] = lambda s: width(text(s))


FUN["to_lowercase"] = lambda s: text(s).lower()
FUN["to_uppercase"] = lambda s: text(s).upper()
FUN["to_ascii_lowercase"] = lambda s: "".join(chr(ord(x) + 32) if "A" <= x <= "Z" else x for x in text(s))
FUN["to_ascii_uppercase"] = lambda s: "".join(chr(ord(x) - 32) if "a" <= x <= "z" else x for x in text(s))
FUN["repeat"] = lambda s, n: text(s) * n


@fun("chunks")
def f_chunks(x, n):
    x = tobytes(x) if isinstance(x, str) else lst(x)
    return [list(x[i:i + n]) for i in range(0, len(x), n)]


@fun("step_by")
def f_step_by(x, n):
    return lst(x)[::n]


@fun("cwidth")
def f_cwidth(c):
    w = width_char(chr(c))
    return NONE if w is None else some(w)


@fun("cmp3")
def f_cmp3(a, b):
    return En(order(a, b) + 1)


@fun("natord")
def f_natord(a, b):
    return En(natcmp(text(a), text(b)) + 1)


@fun("as_float")
def f_as_float(x):
    return float(intv(x))


FUN["fadd"] = lambda a, b: a + b
FUN["fsub"] = lambda a, b: a - b
FUN["fmul"] = lambda a, b: a * b
FUN["flt"] = lambda a, b: int(a < b)
FUN["fle"] = lambda a, b: int(a <= b)
FUN["fgt"] = lambda a, b: int(a > b)
FUN["fge"] = lambda a, b: int(a >= b)
FUN["feq"] = lambda a, b: int(a == b)
FUN["fne"] = lambda a, b: int(a != b)


@fun("fdiv")
def f_fdiv(a, b):
    if b == 0:
        raise Undef("0/0")
    return a / b


# ------------------------------------------------------------------ maps


@fun("mapnew")
def f_mapnew():
    return {}


@fun("maplit", "mapfrom")
def f_maplit(x):
    return {key_of(k): v for k, v in lst(x)}


@fun("map_get")
def f_map_get(m, k):
    k = key_of(k)
    return some(m[k]) if k in m else NONE


@fun("map_at")
def f_map_at(m, k):
    k = key_of(k)
    if k not in m:
        raise Undef("key")
    return m[k]


@fun("map_insert")
def f_map_insert(m, k, v):
    m = dict(m)
    m[key_of(k)] = v
    return m


@fun("map_remove")
def f_map_remove(m, k):
    m = dict(m)
    m.pop(key_of(k), None)
    return m


@fun("map_len")
def f_map_len(m):
    return len(m)


@fun("map_extend")
def f_map_extend(m, x):
    m = dict(m)
    for k, v in lst(x):
        m[key_of(k)] = v
    return m


def hash_order(E, m):
    ks = sorted(m, key=lambda k: repr(k))
    random.Random(E.hseed * 7919 + len(ks)).shuffle(ks)
    return ks


@sfun("keys")
def f_keys(E, m):
    return hash_order(E, m)


@sfun("values")
def f_values(E, m):
    return [m[k] for k in hash_order(E, m)]


@sfun("mapiter")
def f_mapiter(E, m):
    return [(k, m[k]) for k in hash_order(E, m)]


# ------------------------------------------------------------------ readers


@fun("read_ok")
def f_read_ok(s, p, n):
    return int(p + n <= len(lst(s)))


@fun("rd")
def f_rd(s, p, n):
    x = lst(s)
    if p + n > len(x):
        raise Undef("rd")
    return x[p:p + n]


@fun("seek_ok", "rte_ok")
def f_seek_ok(*a):
    return 1


def bits(op, f):
    fun("bin:" + op)(lambda x, y: f(intv(x), intv(y)))


for _o, _f in (("and", lambda x, y: x & y), ("or", lambda x, y: x | y), ("xor", lambda x, y: x ^ y),
               ("shr", lambda x, y: x >> y), ("shl", lambda x, y: (x << y) & 0xFFFFFFFFFFFFFFFF)):
    bits(_o, _f)


@fun("rdsome")
def f_rdsome(s, p, n):
    return max(0, min(n, len(lst(s)) - p))


@fun("partial")
def f_partial(s, p, n):
    return (lst(s)[p:p + n] + [0] * min(n, 4096))[:n]


@fun("badpos")
def f_badpos(s, p, n):
    return min(p + n, len(lst(s)))


@fun("rdupto")
def f_rdupto(s, p, n):
    return lst(s)[p:p + n]


@fun("strreplace")
def f_strreplace(a, b, c):
    return text(a).replace(text(b), text(c))


@fun("strrepeat")
def f_strrepeat(a, n):
    if n > 10000:
        raise Opaque("repeat")
    return text(a) * n


@fun("maxof")
def f_maxof(x):
    x = lst(x)
    if not x:
        return NONE
    b = x[0]
    for y in x[1:]:
        if order(y, b) >= 0:
            b = y
    return some(b)


@fun("minof")
def f_minof(x):
    x = lst(x)
    if not x:
        return NONE
    b = x[0]
    for y in x[1:]:
        if order(y, b) < 0:
            b = y
    return some(b)


@fun("dedup")
def f_dedup(x):
    out = []
    for y in lst(x):
        if not out or not same(out[-1], y):
            out.append(y)
    return out


@fun("errkind")
def f_errkind(e, data, missing, eof):
    k = {"decode": data, "utf8": data, "io": missing, "eof": eof}.get(e) if isinstance(e, str) else None
    if k is None:
        raise Opaque("kind of an error")
    return En(intv(k), ())


@fun("readerr")
def f_readerr(s, p, n):
    return "eof"


@fun("seekerr")
def f_seekerr(s, p):
    return "seek"
