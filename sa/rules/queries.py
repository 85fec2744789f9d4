"""C18 conversion, C19 status, C20 lookups, C21 comparison, C22 merge."""
import decide
import loops
from rules.common import *  # noqa

MOF = ("msgid", "msgstr", "msgid_plural", "msgstr_plural", "msgctxt")


def c18(c):
    lib = c.lib

    def po2mo():
        fn = c.need(lib.method("MOEntry", "from", "From", "&entry::poentry::POEntry") or from_ref(lib, "MOEntry", "POEntry"), "conversion")
        s = lib.summary(fn)
        for n in MOF:
            c.same("MO entry keeps " + n, fn, lib.f(s.ret, "MOEntry", n), lib.f(s.args[0], "POEntry", n), s.inputs)

    def mo2po():
        fn = c.need(from_ref(lib, "POEntry", "MOEntry"), "conversion")
        s = lib.summary(fn)
        for n in MOF:
            c.same("PO entry keeps " + n, fn, lib.f(s.ret, "POEntry", n), lib.f(s.args[0], "MOEntry", n), s.inputs)

    def file():
        fn = c.need(from_ref(lib, "MOFile", "POFile"), "conversion")
        s = lib.summary(fn)
        p = s.args[0]
        ents = lib.f(p, "POFile", "entries")
        c.same("MO file has exactly the translated entries in order", fn, lib.f(s.ret, "MOFile", "entries"),
               filtered(ents, lambda e: po_translated(lib, e), lambda e: to_mo(lib, e)), s.inputs)
        c.same("MO file keeps the metadata", fn, lib.f(s.ret, "MOFile", "metadata"), lib.f(p, "POFile", "metadata"), s.inputs)

    def bytes_():
        # the bytes of a PO file are those of the MO file made from it
        w = c.need(lib.method("MOFile", "as_bytes_with"), "as_bytes_with")
        conv = c.need(from_ref(lib, "MOFile", "POFile"), "conversion")

        def w_op(I, st, a):
            return mk("app", "mobytes", tuple(I.dd(st, x) for x in a))

        for name, magic in (("as_bytes", MAGIC), ("as_bytes_le", MAGIC), ("as_bytes_be", MAGIC_SWAPPED)):
            fn = c.need(lib.method("POFile", name, "AsBytes"), name)
            s = lib.summary(fn, extra={w: w_op}, key="mobytes")
            m = lib.summary(conv, args=[s.args[0]])
            c.same("POFile::%s are the bytes of the converted file" % name, fn, s.ret,
                   mk("app", "mobytes", (m.ret, num(magic), num(0))), s.inputs,
                   funs={"mobytes": lambda f, g, r: (f[:4], g, r)})

    c.part("entry PO to MO", po2mo)
    c.part("entry MO to PO", mo2po)
    c.part("file", file)
    c.part("bytes", bytes_)


def from_ref(lib, ty, src):
    for i, f in lib.facts.fns.items():
        if f["name"] == "from" and f.get("impl_trait") and last(f["impl_trait"]) == "From" and f.get("body"):
            if last(FX.strip_lt(lib.facts.ts(f["impl_self"]))) == ty:
                ta = [FX.strip_lt(lib.facts.ts(x)) for x in (f.get("impl_trait_args") or [])[1:]]
                if ta and ta[0].startswith("&") and last(ta[0][1:]) == src:
                    return i
    return None


def c19(c):
    lib = c.lib

    def entry():
        fn = c.need(lib.method("POEntry", "translated", "Translated"), "translated")
        s = lib.summary(fn)
        c.same("PO entry translated", fn, bval(s.ret), bval(po_translated(lib, s.args[0])), s.inputs)
        fn = c.need(lib.method("POEntry", "fuzzy"), "fuzzy")
        s = lib.summary(fn)
        c.same("PO entry fuzzy", fn, s.ret, bval(contains(lib.f(s.args[0], "POEntry", "flags"), FUZZY)), s.inputs)

    def lists():
        g = lambda e, n: lib.f(e, "POEntry", n)
        for name, C in (
            ("translated_entries", lambda e: po_translated(lib, e)),
            ("untranslated_entries", lambda e: bnot(po_translated(lib, e))),
            ("fuzzy_entries", lambda e: band(contains(g(e, "flags"), FUZZY), bnot(g(e, "obsolete")))),
            ("obsolete_entries", lambda e: bnorm(g(e, "obsolete"))),
        ):
            fn = c.need(lib.method("POFile", name), name)
            s = lib.summary(fn)
            c.same("POFile::" + name, fn, s.ret, filtered(lib.f(s.args[0], "POFile", "entries"), C), s.inputs)

    def percent():
        fn = c.need(lib.method("POFile", "percent_translated"), "percent_translated")
        s = lib.summary(fn)
        ents = lib.f(s.args[0], "POFile", "entries")
        tr = slen(filtered(ents, lambda e: po_translated(lib, e)))
        tot = slen(ents)
        fl = lambda x: app("as_float", x)
        spec = ite(icmp("eq", tot, num(0)), mk("flt", 0.0), app("fmul", app("fdiv", fl(tr), fl(tot)), mk("flt", 100.0)))
        c.same("percentage", fn, s.ret, spec, s.inputs, agree=lambda a, b: abs(a - b) < 1e-3)

    c.part("entry", entry)
    c.part("lists", lists)
    c.part("percentage", percent)


def c20(c):
    lib = c.lib
    for ty, ent, by in (
        ("POFile", "POEntry", ("msgid", "msgstr", "msgctxt", "msgid_plural", "previous_msgid", "previous_msgid_plural", "previous_msgctxt")),
        ("MOFile", "MOEntry", ("msgid", "msgstr", "msgctxt", "msgid_plural")),
    ):
        c.part("%s lookups" % ty, lookups, c, lib, ty, ent, by)
        c.part("%s first matches" % ty, firsts, c, lib, ty, ent)
        c.part("%s removals" % ty, removals, c, lib, ty, ent)


def lookups(c, lib, ty, ent, by):
    fn = c.need(lib.method(ty, "find"), "find")
    for b in by:
        n = lib.facts.fns[fn]["body"]["argc"]
        a = [None, None, lit(b), None] + [None] * (n - 4)
        s = lib.summary(fn, args=a)
        me, value, _, ctx = s.args[:4]
        obs = s.args[4] if n > 4 else None

        def C(e):
            v = lib.f(e, ent, b)
            p = veq(v if b == "msgid" else or_empty(v), value)
            q = bnorm(opt(ctx, TR, lambda x: bval(veq(or_empty(lib.f(e, ent, "msgctxt")), x))))
            r = bor(obs, bnot(lib.f(e, ent, "obsolete"))) if obs is not None else TR
            return band(p, q, r)

        c.same("%s::find by %s" % (ty, b), fn, s.ret, filtered(lib.f(me, ty, "entries"), C), s.inputs)


def firsts(c, lib, ty, ent):
    for name in ("find_by_msgid", "find_by_msgid_msgctxt"):
        fn = c.need(lib.method(ty, name), name)
        s = lib.summary(fn)
        me, mid = s.args[:2]
        C = lambda e: matches(lib, ent, e, mid, s.args[2] if len(s.args) > 2 else None)
        c.same("%s::%s" % (ty, name), fn, s.ret, first(lib.f(me, ty, "entries"), C), s.inputs)


def matches(lib, ent, e, mid, ctx):
    p = veq(lib.f(e, ent, "msgid"), mid)
    return p if ctx is None else band(p, veq(or_empty(lib.f(e, ent, "msgctxt")), ctx))


def removals(c, lib, ty, ent):
    for name in ("remove", "remove_by_msgid", "remove_by_msgid_msgctxt"):
        fn = c.need(lib.method(ty, name), name)
        s = lib.summary(fn)
        me = lib.arg(fn, 0)
        if name == "remove":
            C = lambda e: bnot(band(*[veq(lib.f(e, ent, n), lib.f(s.args[1], ent, n)) for n in lib.facts.fields(lib.adt(ent))]))
        else:
            C = lambda e: bnot(matches(lib, ent, e, s.args[1], s.args[2] if len(s.args) > 2 else None))
        p = lib.adt(ty)
        out = lib.build(ty, base=me, entries=filtered(lib.f(me, ty, "entries"), C))
        c.same("%s::%s" % (ty, name), fn, s.mem("arg0"), out, s.inputs)


# ------------------------------------------------------------------ comparison

CMP = {
    "POEntry": ("obsolete", "occurrences", "flags", "msgctxt", "msgid_plural", "msgstr_plural", "msgid", "msgstr"),
    "MOEntry": ("msgctxt", "msgid_plural", "msgstr_plural", "msgid", "msgstr"),
}
LISTS = ("occurrences", "flags", "msgstr_plural")


def rev_ord(t):
    return discr_switch(t, T.ORDT, (T.ORD[2], T.ORD[1], T.ORD[0]))


def nsorted(x):
    return app("sort", x, Q.vcmp(sym("§a"), sym("§b")))


def field_cmp(lib, ty, n, a, b):
    x, y = lib.f(a, ty, n), lib.f(b, ty, n)
    if n == "obsolete":
        return rev_ord(Q.vcmp(x, y))
    if n in LISTS:
        return Q.vcmp(nsorted(x), nsorted(y))
    if n != "msgid":
        x, y = opt(x, lit("\0"), lambda v: v), opt(y, lit("\0"), lambda v: v)
    return Q.vcmp(x, y)


def lexi(lib, ty, a, b, o, names):
    r = T.ORD[1]
    for n in reversed(names):
        fc = field_cmp(lib, ty, n, a, b)
        on = bnorm(lib.f(o, "EntryCmpByOptions", "by_" + n))
        r = ite(on, discr_switch(fc, T.ORDT, (T.ORD[0], r, T.ORD[2])), r)
    return r


def c21(c):
    for ty in ("POEntry", "MOEntry"):
        c.part("%s::cmp_by" % ty, cmp_by, c, c.lib, ty)
    c.part("options", options, c, c.lib)


def cmp_by(c, lib, ty):
    fn = c.need(lib.method(ty, "cmp_by"), "cmp_by")
    s = lib.summary(fn)
    a, b, o = s.args
    names = CMP[ty]
    if decide.equal(s.ret, lexi(lib, ty, a, b, o, names)):
        c.record("%s::cmp_by is the lexicographic order of the enabled fields" % ty, fn, "proved",
                 "hence antisymmetric, transitive and dependent on enabled fields only")
        return
    # another way of ordering: check what the property asks for one by one
    x, y, z = sym(fn + ".x"), sym(fn + ".y"), sym(fn + ".z")
    oty = s.inputs[o]
    ety = s.inputs[a]

    def C(p, q, opts=o):
        return T.replace(s.ret, {a: p, b: q, o: opts})

    small = lambda g: g.ty(ety)
    inp = {x: small, y: small, o: oty}
    c.same("%s::cmp_by antisymmetric" % ty, fn, C(y, x), rev_ord(C(x, y)), inp, n=2000)
    c.same("%s::cmp_by of equal entries" % ty, fn, C(x, x), T.ORD[1], inp)
    lt = lambda t: bnorm(discr_switch(t, T.ORDT, (TR, F, F)))
    gt = lambda t: bnorm(discr_switch(t, T.ORDT, (F, F, TR)))
    eq_ = lambda t: bnorm(discr_switch(t, T.ORDT, (F, TR, F)))
    inp3 = dict(inp)
    inp3[z] = small
    c.same("%s::cmp_by transitive" % ty, fn, tup(C(x, y), C(y, z), C(x, z)), UNIT, inp3, n=3000, agree=trans)
    p = lib.adt("EntryCmpByOptions")
    fl = lib.facts.fields(p)
    ep = lib.adt(ty)
    efl = lib.facts.fields(ep)
    for n in fl:
        fname = n[3:]
        opts = agg(p, 0, [F if m == n else field(o, i, p) for i, m in enumerate(fl)])
        if fname in efl:
            x2 = lib.build(ty, base=x, **{fname: lib.f(z, ty, fname)})
            c.same("%s::cmp_by ignores %s when disabled" % (ty, fname), fn, C(x2, y, opts), C(x, y, opts), inp3)
    al = agg(p, 0, [TR] * len(fl))
    for n in names:
        only = agg(p, 0, [TR if m == "by_" + n else F for m in fl])
        for lab, oo in (("alone", only), ("with all", al)):
            r = bnorm(discr_switch(field_cmp(lib, ty, n, x, y), T.ORDT, (TR, F, TR)))
            bad = band(eq_(C(x, y, oo)), r)
            c.never("%s::cmp_by sees %s (%s)" % (ty, n, lab), fn, bad, inp, n=2000)
            if n in LISTS:
                x2 = lib.build(ty, base=x, **{n: app("rev", lib.f(x, ty, n))})
                c.same("%s::cmp_by regardless of the order of %s (%s)" % (ty, n, lab), fn, C(x2, x, oo), T.ORD[1], inp, n=1000)


def trans(v, _):
    ab, bc, ac = [w.v - 1 for w in v]
    if ab <= 0 and bc <= 0:
        return ac <= 0 and (ac < 0 or (ab == 0 and bc == 0))
    if ab >= 0 and bc >= 0:
        return ac >= 0 and (ac > 0 or (ab == 0 and bc == 0))
    return True


def options(c, lib):
    ty = "EntryCmpByOptions"
    p = lib.adt(ty)
    fl = lib.facts.fields(p)
    for n in fl:
        fn = lib.method(ty, n)
        if fn is None:
            continue
        s = lib.summary(fn)
        spec = agg(p, 0, [s.args[1] if m == n else field(s.args[0], i, p) for i, m in enumerate(fl)])
        c.same("option %s sets itself only" % n, fn, s.ret, spec, s.inputs)
    fn = lib.method(ty, "by_all")
    if fn:
        s = lib.summary(fn)
        c.same("by_all sets every option", fn, s.ret, agg(p, 0, [s.args[1]] * len(fl)), s.inputs)
    for fn in (lib.method(ty, "new"), lib.method(ty, "default", "Default")):
        if fn:
            s = lib.summary(fn)
            c.same("all options enabled by default", fn, s.ret, agg(p, 0, [TR] * len(fl)), s.inputs)
    for i, f in lib.facts.fns.items():
        if f["name"] == "from" and f.get("impl_self") is not None and f.get("body") and last(lib.facts.ts(f["impl_self"])) == ty:
            s = lib.summary(i)
            S = s.args[0]
            e = elem(S, -1)
            for j, m in enumerate(fl):
                ph = sym("§opt")
                T.ENUM_OF.setdefault(ph, "bool")
                nx = ite(veq(field(e, 0, "tuple"), lit(m[3:])), field(e, 1, "tuple"), ph)
                spec = loops.fold_of(S, e, [(ph, TR, nx)])[0]
                c.same("named option %s sets its own field" % m[3:], i, field(s.ret, j, p), spec, s.inputs)


# ------------------------------------------------------------------ merge


def c22(c):
    lib = c.lib
    for ty in ("POEntry", "MOEntry"):
        c.part("%s::merge" % ty, merge_entry, c, lib, ty)
    c.part("POFile::merge", merge_file, c, lib)


def merge_entry(c, lib, ty):
    fn = c.need(lib.method(ty, "merge", "Merge"), "merge")
    s = lib.summary(fn)
    for n in lib.facts.fields(lib.adt(ty)):
        c.same("%s::merge transfers %s" % (ty, n), fn, lib.f(s.mem("arg0"), ty, n), lib.f(s.args[1], ty, n), s.inputs)


def merge_file(c, lib):
    fn = c.need(lib.method("POFile", "merge", "Merge"), "merge")
    s = lib.summary(fn)
    me, other = lib.arg(fn, 0), s.args[1]
    mine, theirs = lib.f(me, "POFile", "entries"), lib.f(other, "POFile", "entries")
    e = elem(theirs, -1)
    ph = sym("§merge")
    g = lambda x, n: lib.f(x, "POEntry", n)
    hit = first(ph, lambda x: band(veq(g(x, "msgid"), g(e, "msgid")), veq(or_empty(g(x, "msgctxt")), or_empty(g(e, "msgctxt")))))
    found = is_some(hit)
    keep = loops.fold_of(theirs, e, [(ph, mine, ite(found, ph, cat(ph, one(e))))])[0]
    upd = loops.fold_of(theirs, e, [(ph, mine, ite(found, app("set", ph, idx(vfield(hit, 1, 0)), e), cat(ph, one(e))))])[0]

    def mark(S):
        def body(x):
            gone = bnot(exists(theirs, lambda o: veq(g(o, "msgid"), g(x, "msgid"))))
            return one(lib.build("POEntry", base=x, obsolete=ite(gone, TR, g(x, "obsolete"))))

        return over(S, body)

    after = lib.f(s.mem("arg0"), "POFile", "entries")
    name = "POFile::merge adds what is missing, updates what is present, marks what disappeared"
    if decide.equal(after, mark(keep)):
        if c.known("present-entries-not-updated", fn):
            c.record(name, fn, "known", "entries present in both files are merged into a copy and left as they were")
        else:
            c.record(name, fn, "violated", "entries present in both files are left as they were")
    elif decide.equal(after, mark(upd)):
        c.record(name, fn, "proved")
    else:
        r = decide.search(after, mark(keep), s.inputs, lib.facts, seed=c.seed, n=1500)
        q = decide.search(after, mark(upd), s.inputs, lib.facts, seed=c.seed, n=1500)
        if r.verdict == q.verdict == "different":
            c.record(name, fn, "violated", "differs from the specification", r.witness)
        else:
            c.record(name, fn, "undecided", r.why or q.why)
    for n in lib.facts.fields(lib.adt("POFile")):
        if n != "entries":
            c.same("POFile::merge leaves %s" % n, fn, lib.f(s.mem("arg0"), "POFile", n), lib.f(me, "POFile", n), s.inputs)
