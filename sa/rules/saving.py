"""C07: saving creates the path, writes the whole serialized form, ignores no failure."""
import decide
import ev
from interp import prune
from rules.common import *  # noqa
from rules import powrite as W

FALLIBLE = ("creates", "writes", "flushes")


def saves(c):
    lib = c.lib
    for ty in ("POFile", "MOFile"):
        for name, trait, kind in (
            ("save", "Save", ty[:2]),
            ("save_as_pofile", "SaveAsPOFile", "PO"),
            ("save_as_mofile", "SaveAsMOFile", "MO"),
        ):
            fn = c.need(lib.method(ty, name, trait), "%s::%s" % (ty, name))
            yield ty, name, kind, fn, {"Self": lib.adt(ty)}


def form(c, ty, kind, f):
    """what is to be written"""
    lib = c.lib
    if kind == "PO":
        fn = c.need(lib.method(ty, "fmt", "Display"), ty + " text")
        s = lib.summary(fn, args=[f, EMPTY])
        return s.mem("arg1")
    if ty == "POFile":
        conv = c.need(lib.method("MOFile", "from", "From", "&file::pofile::POFile") or lib.method("MOFile", "from", "From"), "conversion to MO")
        f = lib.summary(conv, args=[f]).ret
    fn = c.need(lib.method("MOFile", "as_bytes_le", "AsBytes"), "MO bytes")
    return lib.summary(fn, args=[f]).ret


def ops(t):
    return [x for x in T.subterms(bval(t)) if x.k == "app" and x.a[0] in FALLIBLE]


def succeed(t, ctx=None):
    """when nothing fails"""
    return T.rewrite(t, lambda x: TR if x.k == "app" and x.a[0] in FALLIBLE else None)


def target(x):
    while x.k == "app" and x.a[0] == "buf":
        x = x.a[1][0]
    return x


def free_elems(*ts):
    out = set()
    for t in ts:
        for x in T.subterms(t):
            if x.k in ("elem", "idx") and x.k == "elem" and x.a[1] <= -2:
                out.add(x)
    return out


def outcome(val, g):
    """each operation fails or succeeds, mostly the latter"""
    seed = g.r.random()
    p = g.r.choice((0.0, 0.3))
    import random

    def f(*a):
        return int(random.Random("%r%r" % (seed, a)).random() >= p)

    return {k: f for k in FALLIBLE}


def c07(c):
    for x in saves(c):
        c.part("%s::%s" % x[:2], one_save, c, *x)


def one_save(c, ty, name, kind, fn, tyenv):
    lib = c.lib
    f, path = sym("file"), sym("path")
    s = lib.summary(fn, args=[f, path], tyenv=tyenv, key=ty)
    what = "%s::%s" % (ty, name)
    ins = {f: W.gfile(lib, ty), path: lambda g: "out.file"}
    evs = [e for e in s.events if e.pc is not F]
    pc = s.st.pc
    opened = [e for e in evs if e.kind in ("create", "openw")]
    if any(e.kind.startswith("fs:") for e in evs):
        c.record(what + ": writes the path", fn, "undecided", "files are also moved or removed")
        return
    if s.I.unknown:
        c.record(what + ": writes the path", fn, "undecided", "calls not understood: " + ", ".join(sorted(s.I.unknown))[:200])
        return
    # the path
    done = bor(*[e.pc for e in opened]) if opened else F
    missed = band(pc, bnot(done))
    if bnorm(missed) is F and all(e.data[0] is path for e in opened):
        c.record(what + ": creates the given path", fn, "proved")
    else:
        p = T.lit("")
        for e in opened:
            p = ite(e.pc, e.data[0], p)
        c.same(what + ": creates the given path", fn, ite(succeed(bval(pc)), succeed(p), path), path, ins)
    for e in opened:
        if e.kind == "openw":
            _, trunc, app_, create, new = e.data
            bad = band(e.pc, bor(bnot(trunc), app_)) if new is not TR else F
            c.never(what + ": nothing of an older file is left", fn, bad, ins, funs=outcome)
            c.never(what + ": the path is created when missing", fn, band(e.pc, bnot(create), bnot(new)), ins, funs=outcome)
    # what is written
    parts = []
    for e in evs:
        if e.kind == "write":
            if target(e.data[0]) is not mk("app", "out", (path,)):
                continue
            fe = free_elems(e.data[1], bval(e.pc))
            d = ite(succeed(bval(e.pc)), succeed(e.data[1]), EMPTY)
            if len(fe) == 1:
                x = fe.pop()
                d = over(x.a[0], lambda y: T.replace(ite(succeed(bval(prune_len(e.pc, x))), succeed(e.data[1]), EMPTY), {x: y}))
            elif fe:
                raise Skip("writes in nested loops")
            parts.append(d)
        elif e.kind == "partialwrite":
            c.record(what + ": writes all of it", fn, "violated" if not looping(s, e) else "undecided", "a single write may write only a part (%s:%s)" % tuple(e.site[1][:2]) if e.site[1] else "a single write may write only a part")
            return
    c.same(what + ": writes exactly the serialized form", fn, cat(*parts), form(c, ty, kind, f), ins, n=150, limit=30.0)
    # failures
    for op in FALLIBLE:
        atoms = {}
        for e in evs:
            if e.kind == {"creates": "create", "writes": "write", "flushes": "flush"}[op] or op == "creates" and e.kind == "openw":
                a = mk("app", op, (e.data[0],) if op != "writes" else (e.data[0], e.data[1]))
                if op == "flushes" and not (e.data[0].k == "app" and e.data[0].a[0] == "buf"):
                    continue
                atoms[a] = e
        for a, e in atoms.items():
            nm = what + ": a failure to %s is not ignored" % op[:-1 if op != "flushes" else -2]
            panics = bor(F, *[x.pc for x in evs if x.kind.startswith("panic") and a in T.subterms(bval(x.pc))])
            if bnorm(band(pc, e.pc, bnot(a))) is F or bnorm(band(e.pc, bnot(a), bnot(panics))) is F:
                c.record(nm, fn, "proved")
            elif panics is F and not any(x.k == "app" and x.a[0] == op for x in T.subterms(bval(pc))):
                c.record(nm, fn, "violated", "the outcome of %s at %s influences nothing" % (op[:-1], where(e)))
            else:
                c.never(nm, fn, band(pc, e.pc, bnot(a)), ins, funs=outcome, n=200)
    for e in evs:
        if e.kind == "bufwriter":
            fl = [x for x in evs if x.kind == "flush" and x.data[0] is e.data[0]]
            nm = what + ": what is buffered is flushed"
            if not fl:
                c.record(nm, fn, "violated", "buffered writer made at %s is dropped without a flush: a failure to write is lost" % where(e))
            else:
                c.never(nm, fn, band(pc, e.pc, bnot(bor(*[x.pc for x in fl]))), ins, funs=outcome, n=200)


def prune_len(pc, x):
    """the path condition inside the loop over x"""
    return prune(icmp("gt", slen(x.a[0]), num(0)), bval(pc))


def looping(s, e):
    return any(lp.fn == e.site[0] for lp in s.I.loops)


def where(e):
    return "%s:%s" % tuple(e.site[1][:2]) if e.site and e.site[1] else str(e.site and e.site[0])
