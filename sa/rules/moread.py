"""C04, C05, C16, C17 (reading), C27 and C28 (MO): the MO reader."""
import struct

import decide
import ev
import loops
from rules.common import *  # noqa
from rules import mowrite


def app_b(name, *a):
    t = app(name, *a)
    if t.k == "app":
        T.ENUM_OF.setdefault(t, "bool")
    return t


def text(B, n, o):
    return app("lossy", app("rdupto", B, o, n))


def split1(x, ch):
    t = app("split_once", x, lit(ch))
    if t.k == "app":
        T.ENUM_OF.setdefault(t, OPT)
    return t


class Spec(object):
    """what a reader makes of the bytes B in one byte order"""

    def __init__(self, lib, B, options, magic):
        self.lib, self.B, self.magic = lib, B, magic
        self.rng = None
        w = self.word
        self.rev = w(num(4))
        self.N, self.KT, self.VT = w(num(8)), w(num(12)), w(num(16))
        rng = app("range", num(0), self.N)
        self.rng = rng
        rok = lambda p: bnorm(app_b("read_ok", B, p, num(4)))
        seek = lambda p: bnorm(app_b("seek_ok", B, p))
        table = lambda t: bnot(exists(rng, lambda i: bnot(band(rok(add(t, mul(num(8), i))), rok(add(add(t, mul(num(8), i)), num(4)))))))

        def string(t, i):
            n, o = self.at(t, i)
            return band(seek(o), bnorm(app_b("rte_ok", B, o, n)), icmp("eq", n, slen(app("rdupto", B, o, n))))

        head = [rok(num(4)), icmp("le", self.rev, num(1)), rok(num(8)), rok(num(12)), rok(num(16)),
                seek(self.KT), table(self.KT), seek(self.VT), table(self.VT),
                bnot(exists(rng, lambda i: bnot(band(string(self.KT, i), string(self.VT, i)))))]
        self.good = TR
        for h in reversed(head):
            self.good = band(h, self.good)

        def isheader(i):
            return band(icmp("eq", i, num(0)), empty(text(B, *self.at(self.KT, i))))

        def entry(i):
            K, V = text(B, *self.at(self.KT, i)), text(B, *self.at(self.VT, i))
            p = split1(K, "\0")
            key = opt(p, K, lambda q: field(q, 0))
            c = split1(key, "\x04")
            plural = opt(p, NONE, lambda q: some(opt(split1(field(q, 1), "\0"), field(q, 1), lambda r: field(r, 0))))
            return lib.build(
                "MOEntry",
                msgid=opt(c, key, lambda q: field(q, 1)),
                msgctxt=opt(c, NONE, lambda q: some(field(q, 0))),
                msgid_plural=plural,
                msgstr=some(V),
                msgstr_plural=opt(p, EMPTY, lambda q: app("split", V, lit("\0"))),
            )

        self.entries = over(rng, lambda i: ite(isheader(i), EMPTY, one(entry(i))))

        def meta(i, acc):
            S = app("split", text(B, *self.at(self.VT, i)), lit("\n"))
            e = elem(S, -1)
            q = sym("§q")
            p = split1(e, ":")
            key = opt(p, e, lambda x: field(x, 0))
            val = opt(p, EMPTY, lambda x: app("trim", field(x, 1)))
            return loops.fold_of(S, e, [(q, acc, ite(empty(key), q, app("map_insert", q, key, val)))])[0]

        e = elem(rng, -1)
        q = sym("§m")
        self.metadata = loops.fold_of(rng, e, [(q, app("mapnew"), ite(isheader(e), meta(e, q), q))])[0]
        self.file = lib.build("MOFile", magic_number=some(num(magic)), version=some(self.rev), metadata=self.metadata,
                              entries=self.entries, options=options)

    def word(self, p):
        return app("le32" if self.magic == MAGIC else "be32", app("rd", self.B, p, num(4)))

    def at(self, t, i):
        return self.word(add(t, mul(num(8), i))), self.word(add(add(t, mul(num(8), i)), num(4)))

    def result(self, f=lambda x: x):
        return ite(self.good, ok(f(self.file)), err(UNIT))


# ------------------------------------------------------------------ the reader's summaries


class Reader(object):
    """summaries of mofile() by kind of source and magic"""

    def __init__(self, c, path=False):
        self.c, self.lib = c, c.lib
        self.fn = c.need(c.lib.free("mofile"), "mofile")
        self.P = sym("P")
        self.isf = bnorm(app_b("is_file", self.P))
        if path:
            self.opens = bnorm(app_b("opens", self.P))
            self.options = self.lib.build("FileOptions", sym("opt"), path_or_content=self.P)
            self.B = app("file", self.P)
            self.ctx = band(self.isf, self.opens)
        else:
            self.B = sym("B")
            self.options = self.lib.build("FileOptions", sym("opt"), path_or_content=self.P, byte_content=some(self.B))
            self.ctx = bnot(self.isf)
        self.path = path
        m = app("le32", app("rd", self.B, num(0), num(4)))
        self.m = m
        r = bnorm(app_b("read_ok", self.B, num(0), num(4)))
        self.le = band(r, icmp("eq", m, num(MAGIC)))
        self.be = band(r, icmp("eq", m, num(MAGIC_SWAPPED)))
        self.no = bnot(bor(self.le, self.be))

    def run(self, which):
        C = {MAGIC: self.le, MAGIC_SWAPPED: self.be, 0: self.no}[which]
        s = self.lib.summary(self.fn, args=[self.options], ctx=band(self.ctx, C), limit=60)
        r = T.under(band(self.ctx, C), s.ret)
        if which:
            r = T.replace(r, {self.m: num(which)})
        return s, discr_switch(r, RES, (ok(vfield(r, 0, 0)), err(UNIT))), band(self.ctx, C)

    def inputs(self, gen):
        lib = self.lib
        opt_ty = lib.ty_of("FileOptions")
        d = {self.P: lambda g: "p", sym("opt"): opt_ty}
        if self.path:
            d[sym("§data")] = gen
        else:
            d[self.B] = gen
        return d

    def funs(self, fail=False):
        """meaning of the outside world at one assignment"""
        bsym = sym("§data") if self.path else self.B

        def make(val, g):
            data = val[bsym]
            bad = set()
            noseek = lambda p: False
            short = False
            if fail:
                k = g.r.random()
                if k < 0.35 and data:
                    bad = {g.r.randrange(len(data))}
                elif k < 0.6:
                    j = g.r.randrange(6)
                    noseek = (lambda p: True) if j == 0 else (lambda p: p % 5 == j - 1 and p > 0)
                elif k < 0.7:
                    short = True
            hit = lambda p, n: any(p <= b < p + n for b in bad)
            return {
                "is_file": lambda p: int(self.path),
                "opens": lambda p: 1,
                "file": lambda p: data,
                "seek_ok": lambda s, p: int(not noseek(p)),
                "rte_ok": lambda s, p, n: int(not hit(p, n)),
                "read_ok": lambda s, p, n: int(p + n <= len(s) and not hit(p, n)),
                "rdsome": lambda s, p, n: min(max(0, min(n, len(s) - p)), max(1, n // 2) if short else n),
            }

        return make


def pack(r, order, rev, pairs, scatter=True, magic=MAGIC):
    """a MO file with the tables and strings placed anywhere"""
    w = lambda x: list(struct.pack(("<" if order == "le" else ">") + "I", x & 0xFFFFFFFF))
    n = len(pairs)
    blocks = [("k", 8 * n), ("v", 8 * n)]
    for i, (k, v) in enumerate(pairs):
        blocks += [("k%d" % i, len(k) + 1), ("v%d" % i, len(v) + 1)]
    if scatter:
        r.shuffle(blocks)
    pos = 28
    at = {}
    for b, l in blocks:
        if scatter:
            pos += r.choice((0, 1, 2, 5))
        at[b] = pos
        pos += l
    out = [0xEE] * pos
    out[0:28] = w(magic) + w(rev) + w(n) + w(at["k"]) + w(at["v"]) + w(0) + w(at["k"])
    for i, (k, v) in enumerate(pairs):
        for t, s in (("k", k), ("v", v)):
            p = at[t + str(i)]
            out[at[t] + 8 * i:at[t] + 8 * i + 8] = w(len(s)) + w(p)
            out[p:p + len(s) + 1] = list(s) + [0]
    return out


WORDS = ("", "a", "b", "ab", "Open file", "%d files", "été", "日本", "x:y", " ", "a b", "€", "\U0001f600", "long " * 9)
META = ("", "Language: es\n", "A: 1\nB: 2\n", "A:1:2\n B : 3 \nnocolon\n\nC:", "Key: \t v \n: nokey\nA: x\nA: y",
        "Content-Type: text/plain; charset=UTF-8\nPlural-Forms: nplurals=2; plural=(n != 1);\n")


def pairs_of(r, rich, meta=True):
    ps = []
    if meta and r.random() < 0.7:
        ps.append((b"", r.choice(META).encode()))
    for _ in range(r.choice((0, 1, 1, 2, 3))):
        t = lambda: r.choice(WORDS)
        k, v = t(), t()
        if rich:
            if r.random() < 0.4:
                k += "\0" + t()
                v = "\0".join(t() for _ in range(r.choice((1, 2, 2, 3))))
            if r.random() < 0.4:
                k = t() + "\x04" + k
        elif not k:
            k = "k"
        ps.append((k.encode(), v.encode()))
        if not rich and r.random() < 0.2:
            ps.append((b"", r.choice(META).encode()))
    return ps


def gen_for(magic, rich=False, broken=False):
    o = "le" if magic == MAGIC else "be"

    def gen(g):
        r = g.r
        if not magic:
            k = r.random()
            if k < 0.2:
                return [r.randrange(256) for _ in range(r.choice((0, 1, 3, 4, 5, 40)))]
            if k < 0.3:
                return [0xDE, 0x12, 0x04, 0x95][:r.randrange(4)]
            b = pack(r, r.choice(("le", "be")), 0, pairs_of(r, False), r.random() < 0.5)
            b[r.randrange(4)] ^= 1 << r.randrange(8)
            return b
        rev = 0 if rich or broken else r.choice((0, 0, 1, 1, 2, 3, 256, 65536, 1 << 24, 1 << 16 | 1))
        ps = pairs_of(r, rich)
        sizes = [] if rich or broken else [i for i in g.own if 8 <= i <= 3000]
        if sizes and r.random() < 0.03:
            # more strings than a number in the code
            ps += [(b"k%d" % i, b"v") for i in range(r.choice(sizes) + 2)]
        b = pack(r, o, rev, ps, r.random() < 0.7 and len(ps) < 50)
        if broken:
            k = r.random()
            if k < 0.5:
                return b[:r.choice((r.randrange(4, len(b)), r.randrange(4, min(len(b), 30))))]
            if k < 0.9:
                p = r.choice((8, 12, 16) + tuple(range(28, len(b) - 3)))
                w = list(struct.pack("<I" if o == "le" else ">I", r.choice((len(b), len(b) - 1, 1 << 20, 1 << 31, 0xFFFFFFFF, len(b) // 2))))
                if p + 4 <= len(b):
                    b[p:p + 4] = w
        return b

    return gen


# ------------------------------------------------------------------ comparisons per property


def is_ok(x):
    return isinstance(x, ev.En) and x.v == 0


def fields(lib, ty):
    p = lib.adt(ty)
    return {n: i for i, n in enumerate(lib.facts.fields(p))}


def header_agree(lib):
    F_, E_ = fields(lib, "MOFile"), fields(lib, "MOEntry")

    def agree(c, s):
        if is_ok(c) != is_ok(s):
            return False
        if not is_ok(c):
            return True
        c, s = c.f[0], s.f[0]
        pick = lambda f: [f[F_["magic_number"]], f[F_["version"]], [[e[E_["msgid"]], e[E_["msgstr"]]] for e in f[F_["entries"]]]]
        return ev.same(pick(c), pick(s))

    return agree


def entries_agree(lib):
    F_, E_ = fields(lib, "MOFile"), fields(lib, "MOEntry")

    def agree(c, s):
        if not is_ok(c) or not is_ok(s):
            return True

        def pick(f):
            out = []
            for e in f[F_["entries"]]:
                p = e[E_["msgid_plural"]]
                out.append([e[E_[n]] for n in ("msgctxt", "msgid", "msgid_plural", "msgstr_plural")] + ([] if p.v else [e[E_["msgstr"]]]))
            return out

        return ev.same(pick(c.f[0]), pick(s.f[0]))

    return agree


def meta_agree(lib):
    F_ = fields(lib, "MOFile")

    def agree(c, s):
        return not is_ok(c) or not is_ok(s) or (
            ev.same(c.f[0][F_["metadata"]], s.f[0][F_["metadata"]]) and len(c.f[0][F_["entries"]]) == len(s.f[0][F_["entries"]]))

    return agree


NAMES = {MAGIC: "little-endian", MAGIC_SWAPPED: "big-endian", 0: "without a magic number"}


def whole(c, label, project, agree, path=False, rich=False, broken=False, fail=False, magics=(MAGIC, MAGIC_SWAPPED)):
    """project(result) of the reader compared with the specification"""
    R = Reader(c, path)
    lib = c.lib
    for m in magics:
        def one_(m=m):
            s, r, C = R.run(m)
            sp = Spec(lib, R.B, R.options, m).result() if m else err(UNIT)
            code, spec = project(lib, r), project(lib, sp)
            if not (code is spec or decide.equal(code, spec, 4000)):
                # witnesses are compared on the whole result
                code, spec = r, sp
            kw = {}
            if fail and not any(x.k == "app" and x.a[0] == "seek_ok" for x in T.subterms(r)):
                kw["funs"] = R.funs(False)
            else:
                kw["funs"] = R.funs(fail)
            c.same("%s, %s%s" % (label, NAMES[m], " from a path" if path else ""), R.fn, code, spec,
                   R.inputs(gen_for(m, rich, broken)), assume=C, agree=agree, **kw)

        c.part("%s, %s" % (label, NAMES[m]), one_)


def p_ok(lib, r):
    return discr_switch(r, RES, (TR, F))


def p_fields(*names):
    def f(lib, r):
        v = vfield(r, 0, 0)
        return discr_switch(r, RES, (ok(tup(*[lib.f(v, "MOFile", n) for n in names])), err(UNIT)))

    return f


def c16(c):
    whole(c, "header, tables and pairing", p_fields("magic_number", "version", "entries"), header_agree(c.lib))
    whole(c, "anything else is refused", p_ok, lambda a, b: is_ok(a) == is_ok(b), magics=(0,))


def c17(c):
    mowrite.c17_write(c)
    whole(c, "reader: key and value structure", p_fields("entries"), entries_agree(c.lib), rich=True)


def c05(c):
    agree = lambda a, b: not (is_ok(a) and not is_ok(b))
    for path in (False, True):
        whole(c, "incomplete reads are errors", p_ok, agree, path=path, broken=True, fail=True)
        whole(c, "no magic number, no file", p_ok, agree, path=path, magics=(0,))

    def unopened():
        R = Reader(c, True)
        s = c.lib.summary(R.fn, args=[R.options], ctx=band(R.isf, bnot(R.opens)), limit=60)
        r = T.under(band(R.isf, bnot(R.opens)), s.ret)
        c.same("a file that cannot be opened is an error", R.fn, p_ok(c.lib, r), F, R.inputs(gen_for(0)),
               funs=lambda val, g: dict(R.funs()(val, g), opens=lambda p: 0))

    def nothing():
        P = sym("P")
        fn = c.need(c.lib.free("mofile"), "mofile")
        o = c.lib.build("FileOptions", sym("opt"), path_or_content=P, byte_content=NONE)
        ctx = bnot(bnorm(app_b("is_file", P)))
        s = c.lib.summary(fn, args=[o], ctx=ctx, limit=60)
        c.same("no file and no bytes is an error", fn, p_ok(c.lib, T.under(ctx, s.ret)), F,
               {P: lambda g: "p", sym("opt"): c.lib.ty_of("FileOptions")}, funs={"is_file": lambda p: 0})

    c.part("unopened", unopened)
    c.part("nothing", nothing)


def mo_metadata(c):
    """the MO part of C27"""
    whole(c, "MO metadata", p_fields("metadata"), meta_agree(c.lib))


def mo_sources(c):
    """the MO part of C28"""
    same = lambda a, b: is_ok(a) == is_ok(b) and (not is_ok(a) or ev.same(a.f[0], b.f[0]))
    whole(c, "MO from bytes", lambda lib, r: r, same)
    whole(c, "MO from a path", lambda lib, r: r, same, path=True)


# ------------------------------------------------------------------ C04


def closed(pc):
    """pc with the elements of enclosing iterations quantified"""
    while True:
        free = {x for x in T.subterms(bval(pc)) if x.k == "elem" and x.a[1] < -1}
        inner = [e for e in free if not any(e is not f and e in T.subterms(f.a[0]) for f in free)]
        if not inner:
            return pc
        e = inner[0]
        pc = exists(e.a[0], lambda x: bnorm(T.replace(bval(pc), {e: x, idx(e): idx(x)})))


def panics(c, s, C, inputs, funs, label):
    n = 0
    seen = {}
    for e in s.events:
        if not e.kind.startswith("panic:"):
            continue
        seen.setdefault(e.site, []).append(e)
    for site, es in seen.items():
        fn, at = site
        what = "%s: %s at %s:%s" % (label, es[0].kind[6:], at[0], at[1])
        pcs = [e.pc for e in es if e.pc is not F]
        if not pcs:
            c.record(what, fn, "proved", "the failing case is unreachable")
            continue
        for pc in pcs:
            c.never(what, fn, closed(pc), inputs, assume=C, funs=funs)


def c04(c):
    lib = c.lib
    for path in (False, True):
        for m in (MAGIC, MAGIC_SWAPPED, 0):
            def go(m=m, path=path):
                R = Reader(c, path)
                s, r, C = R.run(m)
                inputs = R.inputs(gen_for(m, True, True) if m else gen_for(0))
                label = "MO %s%s" % (NAMES[m], " from a path" if path else "")
                panics(c, s, C, inputs, R.funs(True), label)
                if s.I.unknown:
                    c.record(label + ": calls without a model", R.fn, "undecided", ", ".join(sorted(s.I.unknown))[:300])
                else:
                    c.record(label + ": every call reached has a model", R.fn, "proved", "%d functions" % len(s.I.analysed))
                big = []
                for e in s.events:
                    if e.kind == "alloc" and e.pc is not F:
                        big.append(e)
                for e in big:
                    n = e.data[1]
                    lim = add(mul(num(64), slen(R.B)), num(65536))
                    what = "%s: allocation at %s:%s bounded by the data" % (label, e.site[1][0], e.site[1][1])
                    c.never(what, e.site[0], closed(band(e.pc, icmp("gt", n, lim))), inputs, assume=C, funs=R.funs())
                c.record(label + ": allocations sized by a number", R.fn, "proved", "%d sites" % len(big))

            c.part("MO %s" % NAMES[m], go)
