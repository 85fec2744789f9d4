"""C08 (writing), C09, C10: text of an entry; C26 metadata; C33 text of a file."""
import re

import decide
import ev
import loops
from rules.common import *  # noqa
from rules.escaping import STRINGS

KEYS = (
    "Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date", "Last-Translator", "Language-Team",
    "Language", "MIME-Version", "Content-Type", "Content-Transfer-Encoding", "Plural-Forms",
)

ORDERING = "std::cmp::Ordering"

# ------------------------------------------------------------------ specification


def wrapped(t, w):
    return mk("app", "wrap", (t, w))


def field_text(mark, kw, value, w, ix=EMPTY):
    x = app("escape", value)
    long = icmp("gt", add(app("width", x), num(len(kw) + 1)), w)
    rest = over(wrapped(x, w), lambda p: cat(mark, lit('"'), p, lit('"\n')))
    return cat(mark, lit(kw), ix, lit(' "'), ite(long, EMPTY, x), lit('"\n'), ite(long, rest, EMPTY))


def comment_text(v, mark, w):
    short = ite(icmp("lt", w, num(2)), num(0), sub(w, num(2)))

    def line(l):
        long = icmp("gt", add(app("width", l), num(2)), w)
        return ite(long, over(wrapped(l, short), lambda p: cat(lit(mark), p, lit("\n"))), cat(lit(mark), l, lit("\n")))

    return opt(v, EMPTY, lambda t: over(app("lines", t), line))


def occurrences_text(occ, obsolete, w):
    S = over(occ, lambda o: one(cat(field(o, 0, "tuple"), ite(empty(field(o, 1, "tuple")), EMPTY, cat(lit(":"), field(o, 1, "tuple"))))))
    L, C, W = sym("§L"), sym("§C"), sym("§W")
    e = elem(S, -1)
    ow = app("width", e)
    brk = band(bnot(empty(C)), icmp("gt", add(W, add(ow, num(1))), w))
    row = lambda c: one(cat(lit("#: "), joined(c, lit(" "))))
    l = (L, EMPTY, cat(L, ite(brk, row(C), EMPTY)))
    c = (C, EMPTY, cat(ite(brk, EMPTY, C), one(e)))
    x = (W, num(2), add(ite(brk, num(2), W), add(ow, num(1))))
    rows, _ = loops.fold_of(S, e, [l, c, x])
    cur, _ = loops.fold_of(S, e, [c, x])
    all_ = cat(rows, ite(empty(cur), EMPTY, row(cur)))
    return ite(bor(obsolete, empty(occ)), EMPTY, cat(joined(all_, lit("\n")), lit("\n")))


def mo_text(lib, e, ty, mark, w):
    g = lambda n: lib.f(e, ty, n)
    opt_field = lambda n, kw: opt(g(n), EMPTY, lambda v: field_text(mark, kw, v, w))
    return cat(
        opt_field("msgctxt", "msgctxt"),
        field_text(mark, "msgid", g("msgid"), w),
        opt_field("msgid_plural", "msgid_plural"),
        ite(
            empty(g("msgstr_plural")),
            field_text(mark, "msgstr", or_empty(g("msgstr")), w),
            over(g("msgstr_plural"), lambda s: field_text(mark, "msgstr", s, w, cat(lit("["), app("dec", idx(s)), lit("]")))),
        ),
    )


def po_text(lib, e, w):
    g = lambda n: lib.f(e, "POEntry", n)
    ob = g("obsolete")
    prev = cat(lit("#"), ite(ob, lit("~"), EMPTY), lit("| "))
    fl = g("flags")
    return cat(
        comment_text(g("tcomment"), "# ", w),
        comment_text(g("comment"), "#. ", w),
        occurrences_text(g("occurrences"), ob, w),
        ite(empty(fl), EMPTY, cat(lit("#, "), joined(fl, lit(", ")), lit("\n"))),
        *[opt(g("previous_" + n), EMPTY, lambda v, n=n: field_text(prev, n, v, w)) for n in ("msgctxt", "msgid", "msgid_plural")],
        mo_text(lib, e, "POEntry", ite(ob, lit("#~ "), EMPTY), w),
    )


# ------------------------------------------------------------------ reading a result

FIELD = re.compile(r'^(#~\| |#\| |#~ |)(msgctxt|msgid_plural|msgid|msgstr(?:\[\d+\])?) "(.*)"$', re.S)
MORE = re.compile(r'^(#~\| |#\| |#~ |)"(.*)"$', re.S)
MARKS = ("#. ", "#: ", "#, ", "# ", "#.", "#:", "#,")


def read(text):
    """(fields, comments, lines of neither kind)"""
    text = ev.text(text)
    fs, cs, bad = [], [], []
    rows = text.split("\n")
    if rows and rows[-1] == "":
        rows.pop()
    else:
        bad.append("no newline at the end")
    for r in rows:
        m = FIELD.match(r)
        if m:
            fs.append([m.group(1), m.group(2), [m.group(3)], []])
            continue
        m = MORE.match(r)
        if m:
            if fs:
                fs[-1][2].append(m.group(2))
                fs[-1][3].append(m.group(1))
            else:
                bad.append(r)
            continue
        for k in MARKS:
            if r.startswith(k) or r == k.strip():
                cs.append((k.strip(), r[len(k):], len(fs)))
                break
        else:
            bad.append(r)
    return fs, cs, bad


def c09_ok(c, s):
    a, b = read(c), read(s)
    if b[2]:
        return True
    f = lambda x: [(m, k, "".join(p), all(q == m for q in qs)) for m, k, p, qs in x]
    if f(a[0]) != f(b[0]):
        return False
    return not any(MORE.match(x) or FIELD.match(x.lstrip("#~| ")) for x in a[2])


def c08_ok(c, s):
    a, b = read(c), read(s)
    if [(m, k) for m, k, _, _ in a[0]] == [(m, k) for m, k, _, _ in b[0]]:
        if any("".join(x[2]) != "".join(y[2]) for x, y in zip(a[0], b[0])):
            return False
    special = lambda x: "".join(t for _, t, _ in x[1])
    sa, sb = special(a), special(b)
    if sa != sb and any(q in sa + sb for q in '\\"'):
        strip = lambda t: re.sub(r'[\\"nt\n\s]', "", t)
        return strip(sa) != strip(sb)
    return True


def c10_view(x):
    out = {}
    for k, t, at in x[1]:
        out.setdefault(k, []).append((t, at == 0))
    r = {}
    for k, ts in out.items():
        body = [t for t, _ in ts]
        if k == "#:":
            v = [w for t in body for w in t.split(" ") if w]
        elif k == "#,":
            v = [w.strip() for t in body for w in t.split(",")]
        else:
            v = "".join(body)
        r[k] = (v, all(h for _, h in ts))
    for k in ("#", "#."):
        if k in r and not r[k][0]:
            del r[k]
    return r


def c10_ok(c, s):
    a, b = read(c), read(s)
    if b[2]:
        return True
    return c10_view(a) == c10_view(b) and not a[2]


# ------------------------------------------------------------------ inputs

WORDS = ("a", "foo", "bar", "lorem", "ipsum", "dolor", "sit", "amet", "word", "longerword", "x" * 30, "y" * 75, "y" * 76, "y" * 77, "naïve", "日本語", "Z1")
SPECIAL = ('say "hi"', "back\\slash", "\\", "\\n", "a\nb", "\tq", "a\\", '"', "tab\there", "x\r", "\\\\", "end\n")


def words(g, special=0.0, many=True):
    r = g.r
    n = r.choice((0, 1, 1, 2, 3, 8, 20) if many else (1,))
    xs = [r.choice(SPECIAL) if r.random() < special else r.choice(WORDS) for _ in range(n)]
    t = " ".join(xs)
    k = r.random()
    return t if k > 0.15 else " " + t if k < 0.07 else t + " "


def gwidth(g):
    r = g.r
    return r.choice((0, 1, 2, 3, 5, 10, 20, 40, 77, 78, 79, 80, 81, 82, 100, 200, 10**6))


def gentry(lib, ty, special=0.0, comments=0.0):
    names = lib.facts.fields(lib.adt(ty))

    def make(g):
        r = g.r
        p = r.choice((0.2, 0.5, 0.9))
        o = lambda f: ev.some(f()) if r.random() < p else ev.NONE
        tx = lambda: words(g, special)
        cm = lambda: "\n".join(words(g, comments).replace("\r", "") for _ in range(r.choice((1, 1, 2, 3))))
        out = []
        for n in names:
            if n == "msgid":
                v = tx()
            elif n in STRINGS:
                v = o(tx)
            elif n == "msgstr_plural":
                v = [tx() for _ in range(r.choice((0, 0, 1, 2, 3, 11)))]
            elif n == "obsolete":
                v = int(r.random() < 0.4)
            elif n in ("comment", "tcomment"):
                v = o(cm)
            elif n == "occurrences":
                v = [(r.choice(WORDS) + ".rs", r.choice(("", "1", "42", "100200"))) for _ in range(r.choice((0, 1, 2, 3, 5, 8, 13)))]
            elif n == "flags":
                v = r.sample(("fuzzy", "c-format", "no-wrap", "range: 0..10"), r.choice((0, 1, 2, 3)))
            elif n == "linenum":
                v = r.choice((0, 1, 7))
            else:
                v = g.ty(lib.facts.adts[lib.adt(ty)]["variants"][0]["fields"][names.index(n)]["ty"])
            out.append(v)
        return tuple(out)

    return make


# ------------------------------------------------------------------ entries


def entry_texts(c):
    """(type, function, text, specification, entry, width)"""
    lib = c.lib
    e, w = sym("entry"), sym("width")
    for ty, spec in (
        ("POEntry", lambda: po_text(lib, e, w)),
        ("MOEntry", lambda: mo_text(lib, e, "MOEntry", EMPTY, w)),
    ):
        fn = c.need(lib.method(ty, "to_string_with_wrapwidth"), ty + " text")
        s = lib.summary(fn, args=[e, w])
        yield ty, fn, s.ret, spec(), {e: ty, w: gwidth}


def display_texts(c):
    lib = c.lib
    e = sym("entry")
    for ty in ("POEntry", "MOEntry"):
        fn = c.need(lib.method(ty, "fmt", "Display"), ty + " display")
        out = sym("§out")
        s = lib.summary(fn, args=[e, out])
        spec = po_text(lib, e, num(78)) if ty == "POEntry" else mo_text(lib, e, "MOEntry", EMPTY, num(78))
        yield ty, fn, s.mem("arg1"), cat(out, spec), {e: ty, out: lambda g: ""}


def entries(c, what, agree, special=0.0, comments=0.0):
    lib = c.lib
    for make in (entry_texts, display_texts):
        def run(make=make):
            for ty, fn, code, spec, ins in make(c):
                inputs = {k: (gentry(lib, t, special, comments) if isinstance(t, str) else t) for k, t in ins.items()}
                c.same("%s: %s" % (fn_name(fn), what), fn, code, spec, inputs, agree=agree, n=1500)

        c.part(what, run)


def fn_name(fn):
    return last(fn.split(" as ")[0].lstrip("<") if " as " in fn else fn.rsplit("::", 1)[0]) + "::" + last(fn)


def c09(c):
    entries(c, "every field under its keyword and marker", c09_ok)
    c.part("metadata entry", meta_entry, c, "msgid and msgstr of the metadata under their keywords", c09_ok)


def c10(c):
    entries(c, "comments, occurrences and flags complete and marked", c10_ok)


# ------------------------------------------------------------------ metadata entry as text


def meta_text(lib, e, ty):
    g = lambda n: lib.f(e, ty, n)
    w = num(78)
    return cat(
        opt(g("msgctxt"), EMPTY, lambda v: field_text(EMPTY, "msgctxt", v, w)),
        field_text(EMPTY, "msgid", g("msgid"), w),
        opt(g("msgid_plural"), EMPTY, lambda v: field_text(EMPTY, "msgid_plural", v, w)),
        ite(
            empty(g("msgstr_plural")),
            cat(lit('msgstr ""\n'), over(app("lines", or_empty(g("msgstr"))), lambda l: cat(lit('"'), app("escape", l), lit('\\n"\n')))),
            over(g("msgstr_plural"), lambda s: field_text(EMPTY, "msgstr", s, w, cat(lit("["), app("dec", idx(s)), lit("]")))),
        ),
    )


def gmeta(lib, ty, special=0.0):
    """an entry as metadata gives it: empty msgid, msgstr of lines"""
    names = lib.facts.fields(lib.adt(ty))

    def make(g):
        v = list(lib_default(lib, ty))
        r = g.r
        rows = ["%s: %s" % (r.choice(KEYS + ("X-Foo", "X-Bar")), words(g, special)) for _ in range(r.choice((0, 1, 2, 5)))]
        t = "\n".join(x.replace("\n", "").replace("\r", "") for x in rows)
        v[names.index("msgstr")] = ev.some(t) if t else ev.NONE
        return tuple(v)

    return make


def lib_default(lib, ty):
    out = []
    for f in lib.facts.adts[lib.adt(ty)]["variants"][0]["fields"]:
        t = norm(lib.facts.ts(f["ty"]))
        out.append(ev.NONE if "Option" in t else [] if "Vec" in t else 0 if t in ("bool", "usize") else "")
    return tuple(out)


def meta_entry(c, what, agree, special=0.0):
    lib = c.lib
    e = sym("entry")
    fn = c.need(lib.free("mo_metadata_entry_to_string"), "mo_metadata_entry_to_string")
    s = lib.summary(fn, args=[e])
    c.same("mo_metadata_entry_to_string: " + what, fn, s.ret, meta_text(lib, e, "MOEntry"), {e: gmeta(lib, "MOEntry", special)}, agree=agree)
    fz = sym("fuzzy")
    fn = c.need(lib.free("po_metadata_entry_to_string"), "po_metadata_entry_to_string")
    s = lib.summary(fn, args=[e, fz])
    spec = cat(ite(fz, lit("#, fuzzy\n"), EMPTY), meta_text(lib, e, "POEntry"))
    c.same("po_metadata_entry_to_string: " + what, fn, s.ret, spec, {e: gmeta(lib, "POEntry", special), fz: lambda g: g.bool()}, agree=agree)


# ------------------------------------------------------------------ C26 metadata


def c26(c):
    lib = c.lib
    f = sym("file")
    for ty, ety in (("POFile", "POEntry"), ("MOFile", "MOEntry")):
        c.part("metadata of " + ty, metadata, c, ty, ety, f)
    c.part("metadata entry", meta_entry, c, "every line of the metadata written", c26_text_ok, 0.3)
    for ty in ("POFile", "MOFile"):
        c.part("text of " + ty, same_text, c, ty)


def metadata_rows(lib, f, ty):
    m = lib.f(f, ty, "metadata")
    a, b = sym("§a"), sym("§b")
    row = lambda k, v: one(cat(k, lit(": "), v))
    known = cat(*[opt(app("map_get", m, lit(k)), EMPTY, lambda v, k=k: row(lit(k), v)) for k in KEYS])
    nat = mk("app", "natord", (a, b))
    T.ENUM_OF.setdefault(nat, ORDERING)
    order = then_cmp(nat, Q.vcmp(a, b))
    S = app("sort", app("keys", m), order)
    rest = over(S, lambda k: ite(bor(*[veq(k, lit(x)) for x in KEYS]), EMPTY, row(k, app("map_at", m, k))))
    return m, cat(known, rest)


def then_cmp(a, b):
    less, _, more = [agg(ORDERING, i, ()) for i in range(3)]
    return discr_switch(a, ORDERING, (less, b, more))


def metadata(c, ty, ety, f):
    lib = c.lib
    fn = c.need(lib.method(ty, "metadata_as_entry"), ty + "::metadata_as_entry")
    s = lib.summary(fn, args=[f])
    m, rows = metadata_rows(lib, f, ty)
    text = ite(icmp("eq", app("map_len", m), num(0)), NONE, some(joined(rows, lit("\n"))))
    code = lib.f(s.ret, ety, "msgstr")
    ins = {f: gfile(lib, ty)}
    c.same("%s::metadata_as_entry: every key once with its value, in order" % ty, fn, code, text, ins, agree=c26_ok)
    c.same("%s::metadata_as_entry: empty msgid, nothing else" % ty, fn, lib.build(ety, base=s.ret, msgstr=NONE), plain_entry(lib, ety, f), ins)
    stable(c, "%s::metadata_as_entry: the same for every hash order" % ty, fn, code, ins)


def plain_entry(lib, ety, f):
    out = []
    for f0 in lib.facts.adts[lib.adt(ety)]["variants"][0]["fields"]:
        t = norm(lib.facts.ts(f0["ty"]))
        if f0["name"] == "flags":
            out.append(ite(lib.f(f, "POFile", "metadata_is_fuzzy"), one(FUZZY), EMPTY))
        else:
            out.append(NONE if "Option" in t else EMPTY if "Vec" in t or "String" in t else F if t == "bool" else num(0))
    return agg(lib.adt(ety), 0, out)


def rows_of(v):
    if not isinstance(v, ev.En) or not v.f:
        return None
    return [x.split(": ", 1) for x in ev.text(v.f[0]).split("\n")]


def c26_ok(c, s):
    a, b = rows_of(c), rows_of(s)
    if b is None:
        return a is None or a == [[""]]
    if a is None or any(len(x) != 2 for x in a):
        return False
    if sorted(a) != sorted(b):
        return False
    k = [x[0] for x in a if x[0] in KEYS]
    return k == [x[0] for x in b if x[0] in KEYS] and [x[0] for x in a[:len(k)]] == k


def c26_text_ok(c, s):
    return read(c)[0] == read(s)[0]


ORDERED = ("keys", "values", "mapiter")


def total_order(t):
    """a comparison that is equal only for equal elements"""
    a, b = sym("§a"), sym("§b")
    x = Q.vcmp(a, b)
    if t is x or t is Q.vcmp(b, a):
        return True
    if t.k == "sw":
        return all(total_order(k) or k.k == "agg" and k.a[1] != 1 for k in t.a[3])
    return False


def loose(t, seen=None):
    """iteration over a hash map not made independent of its order"""
    seen = set() if seen is None else seen
    out = []
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "app" and x.a[0] == "sort" and x.a[1][0].k == "app" and x.a[1][0].a[0] == "keys" and total_order(x.a[1][1]):
            todo.extend(x.a[1][0].a[1])
            continue
        if x.k == "app" and x.a[0] in ORDERED:
            out.append(x)
            continue
        todo.extend(T.args_terms(x))
    return out


def stable(c, name, fn, code, inputs, lib=None):
    l = loose(code)
    if not l:
        c.record(name, fn, "proved", "no iteration over a hash map reaches the result unsorted")
        return
    r = decide.orders(code, inputs, c.lib.facts, seed=c.seed, n=400 if c.tier == "quick" else 3000)
    if r.verdict == "different":
        c.record(name, fn, "violated", "the result depends on the iteration order of a hash map: " + T.show(l[0])[:120], r.witness)
    else:
        c.record(name, fn, "undecided", "unsorted iteration over a map: " + T.show(l[0])[:200])


def same_text(c, ty):
    lib = c.lib
    f, out = sym("file"), sym("§out")
    fn = c.need(lib.method(ty, "fmt", "Display"), ty + " display")
    s = lib.summary(fn, args=[f, out])
    ins = {f: gfile(lib, ty), out: lambda g: ""}
    stable(c, "text of %s: the same for every hash order" % ty, fn, s.mem("arg1"), ins)
    if ty == "MOFile":
        fn = c.need(lib.method(ty, "as_bytes_le", "AsBytes"), "MOFile bytes")
        s = lib.summary(fn, args=[f])
        stable(c, "bytes of %s: the same for every hash order" % ty, fn, s.ret, {f: gfile(lib, ty)})


def gfile(lib, ty):
    ety = ty[:2] + "Entry"
    names = lib.facts.fields(lib.adt(ty))
    ent = gentry(lib, ety)

    def make(g):
        r = g.r
        out = []
        for n in names:
            if n == "metadata":
                near = r.choice(KEYS)
                near = r.choice((near.lower(), near.upper(), near + " ", " " + near, near[:-1], near + "-X", "X-" + near, near.replace("-", ""), near.replace("-", "_")))
                ks = r.sample((near,) * (near not in KEYS) + KEYS + ("X-Foo", "X-Bar", "X-10", "X-2", "a", "B", "x-foo", "X 1", "X1", "Zed", "01", "1"), r.choice((0, 1, 2, 3, 6, 14)))
                v = {k: words(g).replace("\n", "") for k in ks}
            elif n == "entries":
                v = [ent(g) for _ in range(r.choice((0, 1, 2, 3)))]
            elif n == "options":
                v = gopts(lib, g)
            elif n == "header":
                v = ev.some("\n".join(r.choice(("", "Header", "two words", "Copyright (C) x")) for _ in range(r.choice((1, 2, 3))))) if r.random() < 0.7 else ev.NONE
            elif n == "magic_number":
                v = r.choice((MAGIC, MAGIC_SWAPPED))
            else:
                v = g.ty(lib.facts.adts[lib.adt(ty)]["variants"][0]["fields"][names.index(n)]["ty"])
            out.append(v)
        return tuple(out)

    return make


def gopts(lib, g):
    names = lib.facts.fields(lib.adt("FileOptions"))
    d = {"path_or_content": "", "wrapwidth": gwidth(g), "byte_content": ev.NONE}
    return tuple(d[n] for n in names)


# ------------------------------------------------------------------ C33 text of a file


def opaque(name):
    return lambda I, st, a: mk("app", name, tuple(I.dd(st, x) for x in a))


def file_parts(c):
    """the public functions the text of a file is made of"""
    lib = c.lib
    return {
        "potext": c.need(lib.method("POEntry", "to_string_with_wrapwidth"), "POEntry text"),
        "motext": c.need(lib.method("MOEntry", "to_string_with_wrapwidth"), "MOEntry text"),
        "pometa": c.need(lib.free("po_metadata_entry_to_string"), "PO metadata text"),
        "mometa": c.need(lib.free("mo_metadata_entry_to_string"), "MO metadata text"),
        "pome": c.need(lib.method("POFile", "metadata_as_entry"), "PO metadata"),
        "mome": c.need(lib.method("MOFile", "metadata_as_entry"), "MO metadata"),
    }


def file_spec(lib, f, ty, P):
    g = lambda n: lib.f(f, ty, n)
    w = lib.f(g("options"), "FileOptions", "wrapwidth")
    ents = g("entries")
    if ty == "MOFile":
        body = over(ents, lambda e: cat(ite(icmp("eq", idx(e), num(0)), EMPTY, lit("\n")), P("motext", e, w)))
        return cat(lit("#\n"), P("mometa", P("mome", f)), ite(empty(ents), EMPTY, cat(lit("\n"), body)))
    h = lambda t: over(app("lines", t), lambda l: cat(lit("#"), ite(empty(l), EMPTY, cat(lit(" "), l)), lit("\n")))
    head = opt(g("header"), lit("#\n"), lambda t: ite(empty(t), lit("#\n"), h(t)))
    one_ = lambda e: cat(P("potext", e, w), lit("\n"))
    return app("init", cat(
        head, P("pometa", P("pome", f), g("metadata_is_fuzzy")), lit("\n"),
        over(ents, lambda e: ite(lib.f(e, "POEntry", "obsolete"), EMPTY, one_(e))),
        over(ents, lambda e: ite(lib.f(e, "POEntry", "obsolete"), one_(e), EMPTY)),
    ))


def file_texts(c, agree, what):
    lib = c.lib
    parts = file_parts(c)
    f, out = sym("file"), sym("§out")
    for ty in ("POFile", "MOFile"):
        fn = c.need(lib.method(ty, "fmt", "Display"), ty + " display")
        name = "%s::fmt: %s" % (ty, what)
        ex = {i: opaque(n) for n, i in parts.items() if i != fn}
        s = lib.summary(fn, args=[f, out], extra=ex, key="parts")
        spec = cat(out, file_spec(lib, f, ty, lambda n, *a: mk("app", n, a)))
        if decide.equal(s.mem("arg1"), spec):
            c.record(name, fn, "proved")
            continue
        s = lib.summary(fn, args=[f, out])

        def P(n, *a):
            return lib.summary(parts[n], args=list(a)).ret

        spec = cat(out, file_spec(lib, f, ty, P))
        c.same(name, fn, s.mem("arg1"), spec, {f: gfile(lib, ty), out: lambda g: ""}, agree=agree, n=300)


def c33(c):
    c.part("text of a file", file_texts, c, c33_ok, "header, metadata and every entry once, obsolete ones last")


def blocks(t):
    return [b.rstrip("\n") for b in re.split(r"\n\n+", ev.text(t))]


def c33_ok(c, s):
    """entries compared without regard to how they are wrapped"""
    def view(t):
        out = []
        for b in blocks(t):
            fs, cs, bad = read(b + "\n")
            out.append(([(m, k, "".join(p)) for m, k, p, _ in fs], [(k, re.sub(r"\s", "", t)) for k, t in squash(cs)], bad))
        return out

    return view(c) == view(s)


def squash(cs):
    out = []
    for k, t, _ in cs:
        if out and out[-1][0] == k:
            out[-1][1] += t
        else:
            out.append([k, t])
    return out
