"""C03, C06, C08, C11, C12, C13, C27 and C28 (PO): the PO reader.

The reader is a line automaton: a function taking the parser and one line is
applied to the lines of the input in order. Its summary is taken for each
parser state and each class of line; the classes cover all texts. What drives
it over the lines is summarised with that function opaque.
"""
import sys
import traceback
import decide
import ev
import loops
import interp
from lib import Skip, last, norm
from rules.common import *  # noqa
from rules import escaping, moread, powrite

NAMES = ("ST", "HE", "TC", "GC", "OC", "FL", "CT", "PC", "PM", "PP", "MI", "MP", "MS", "MX")
FIELD = {"CT": "msgctxt", "MI": "msgid", "MP": "msgid_plural", "MS": "msgstr", "PC": "previous_msgctxt", "PM": "previous_msgid", "PP": "previous_msgid_plural"}
KEYWORDS = {"msgctxt": "CT", "msgid": "MI", "msgid_plural": "MP", "msgstr": "MS"}
PREVIOUS = {"msgctxt": "PC", "msgid": "PM", "msgid_plural": "PP"}
ALL = NAMES
TABLE = {
    "TC": {**{s: "HE" for s in ("ST", "HE")}, **{s: "TC" for s in ("GC", "OC", "FL", "TC", "PC", "PM", "PP", "MS", "MP", "MX", "MI")}},
    "GC": {s: "GC" for s in ALL}, "OC": {s: "OC" for s in ALL}, "FL": {s: "FL" for s in ALL},
    "PC": {s: "PC" for s in ALL}, "PM": {s: "PM" for s in ALL}, "PP": {s: "PP" for s in ALL},
    "CT": {s: "CT" for s in ("ST", "HE", "GC", "OC", "FL", "TC", "PC", "PM", "PP", "MS", "MX")},
    "MI": {s: "MI" for s in ("ST", "HE", "GC", "OC", "FL", "CT", "TC", "PC", "PM", "PP", "MS", "MX")},
    "MP": {s: "MP" for s in ("TC", "GC", "PC", "PM", "PP", "MI")},
    "MS": {s: "MS" for s in ("MI", "MP", "TC")},
    "MX": {s: "MX" for s in ("MI", "MX", "MP", "TC")},
    "MC": {s: s for s in ("CT", "MI", "MP", "MS", "MX", "PM", "PP", "PC")},
}
MAX_PLURALS = 1024


# ------------------------------------------------------------------ classes of lines

PRE, POST = sym("§pre"), sym("§post")
W1, W2, W3 = sym("§w1"), sym("§w2"), sym("§w3")
A1, A2, U1, U2 = sym("§a1"), sym("§a2"), sym("§u1"), sym("§u2")
V, X, I, J, K, Z = sym("§V"), sym("§X"), sym("§I"), sym("§J"), sym("§K"), sym("§Z")
TOK, N1 = sym("§tok"), sym("§n1")
Q.UWS |= {PRE, POST, U1, U2}
Q.AWS |= {A1, A2}
Q.WSCHAR |= {W1, W2, W3}
Q.NBCHAR |= {N1}
Q.NONSPACE |= {V, K, TOK}
Q.LACKS[I] = {"]"}
Q.LACKS[K] = {"]"}
Q.LACKS[TOK] = set(Q.WS_ASCII)


def W(c):
    return seq([("C", c)])


class Line(object):
    """one class of lines: its text, the condition on its parts, and what it says

    what: blank | skip | bad | string(symbol, value) | plural(value) | text(symbol, rest)"""

    def __init__(self, name, text, what, symbol=None, value=None, ctx=TR, obsolete=False, index=None, marked=None):
        self.name, self.body, self.what, self.symbol, self.value, self.ctx, self.obsolete, self.index = name, text, what, symbol, value, ctx, obsolete, index
        self.text = cat(PRE, text, POST)
        self.marked = marked  # comments: without the obsolete marker


def quoted(name, prefix, sep, what, symbol, obsolete=False, ctx=TR, index=None, cont=False):
    """the forms a value can take after a keyword"""
    q = lit('"')
    out = [Line(name + ' "..."', cat(prefix, sep, q, X, q), what, symbol, X, ctx, obsolete, index)]
    out.append(Line(name + " with a lone quote", cat(prefix, sep, q), "bad", ctx=ctx, obsolete=obsolete))
    v = cat(q, X)
    t = app("ends", X, q)
    T.ENUM_OF.setdefault(t, "bool")
    # an opening quote with no closing one: the text after it is not empty and ends with something else
    out.append(Line(name + " without closing quote", cat(prefix, sep, q, U2, V), "bad", ctx=band(ctx, bnot(bnorm(app("ends", V, q)))), obsolete=obsolete))
    if not cont:
        out.append(Line(name + " without opening quote", cat(prefix, sep, V), "bad", ctx=band(ctx, bnot(bnorm(app("starts", V, q)))), obsolete=obsolete))
    return out


def classes():
    out = [Line("blank line", EMPTY, "blank"), Line("obsolete previous", lit("#~|"), "blank"), Line("obsolete previous with text", cat(lit("#~|"), W(W1), U1, V), "blank")]
    out.append(Line("#~ alone", lit("#~"), "any"))
    for pre, obs, tag in ((EMPTY, False, ""), (cat(lit("#~"), W(W3), A2), True, "#~ ")):
        for k, sy in KEYWORDS.items():
            out += quoted(tag + k, cat(pre, lit(k)), cat(W(W1), U1), "string", sy, obs)
            out.append(Line(tag + k + " alone", cat(pre, lit(k)), "bad", obsolete=obs))
        for k, sy in PREVIOUS.items():
            # both markers: not a form the format has
            out += quoted(tag + "#| " + k, cat(pre, lit("#|"), W(W1), A1, lit(k)), cat(W(W2), U1), "any" if obs else "string", sy, obs)
            out.append(Line(tag + "#| " + k + " alone", cat(pre, lit("#|"), W(W1), A1, lit(k)), "bad", obsolete=obs))
        out.append(Line(tag + "#| alone", cat(pre, lit("#|")), "bad", obsolete=obs))
        out += quoted(tag + "continuation", pre, EMPTY, "string", "MC", obs, cont=True)
        out += quoted(tag + "#| continuation", cat(pre, lit("#|")), cat(W(W1), A1), "string", "MC", obs, cont=True)
        ix = parse(I)
        n = vfield(ix, 0, 0)
        good = band(bnorm(Q.is_ok(ix)), icmp("lt", n, num(MAX_PLURALS)))
        out += quoted(tag + "msgstr[]", cat(pre, lit("msgstr["), I, lit("]")), U1, "plural", "MX", obs, good, n)
        out.append(Line(tag + "msgstr[] with no plural index", cat(pre, lit("msgstr["), I, lit("]"), U1, V), "bad", ctx=bnot(good), obsolete=obs))
        out.append(Line(tag + "msgstr[] with no plural index or value", cat(pre, lit("msgstr["), I, lit("]")), "bad", obsolete=obs))
        for m, sy in (("#.", "GC"), ("#:", "OC"), ("#,", "FL")):
            out.append(Line(tag + m + " alone", cat(pre, lit(m)), "skip", obsolete=obs))
            out.append(Line(tag + m, cat(pre, lit(m), W(W1), U1, V), "text", sy, cat(U1, V), obsolete=obs))
        out.append(Line(tag + "msgstr[ without ]", cat(pre, lit("msgstr["), I, K), "bad", obsolete=obs))
        out.append(Line(tag + "msgstr[ alone", cat(pre, lit("msgstr[")), "bad", obsolete=obs))
        for n, t in (("##", cat(lit("##"), Z, V)), ("## alone", lit("##")), ("# alone", lit("#")), ("#", cat(lit("#"), W(W1), U1, V))):
            out.append(Line(tag + n, cat(pre, t), "text", "TC", obsolete=obs, marked=t))
        other = TR
        for k in list(KEYWORDS) + ["#~|", "#~", "#", "#.", "#:", "#,", "#|"]:
            other = band(other, bnot(veq(TOK, lit(k))))
        for k in ('"', "msgstr[", "##"):
            other = band(other, bnot(bnorm(app("starts", TOK, lit(k)))))
        out.append(Line(tag + "other word alone", cat(pre, TOK), "bad", ctx=other, obsolete=obs))
        out.append(Line(tag + "other word", cat(pre, TOK, W(W1), U1, V), "bad", ctx=other, obsolete=obs))
        other = bnot(bnorm(app("starts", TOK, lit('"'))))
        for k in PREVIOUS:
            other = band(other, bnot(veq(TOK, lit(k))))
        out.append(Line(tag + "#| other word alone", cat(pre, lit("#|"), W(W1), A1, TOK), "bad", ctx=other, obsolete=obs))
        out.append(Line(tag + "#| other word", cat(pre, lit("#|"), W(W1), A1, TOK, W(W2), U1, V), "bad", ctx=other, obsolete=obs))
    # white space outside ASCII after the obsolete marker belongs to the next word
    pre = cat(lit("#~"), W(W3), A2, W(N1), U1)
    no = band(bnot(bnorm(app("starts", V, lit('"')))), bnot(bnorm(app("starts", V, lit("msgstr[")))))
    out.append(Line("#~ and other space", cat(pre, V), "any", ctx=no))
    out += quoted("#~ and other space continuation", pre, EMPTY, "any", None, cont=True)
    out += quoted("#~ and other space msgstr[]", cat(pre, lit("msgstr["), I, lit("]")), EMPTY, "any", None)
    out.append(Line("#~ and other space msgstr[ without ]", cat(pre, lit("msgstr["), I, K), "any"))
    out.append(Line("#~ and other space msgstr[] alone", cat(pre, lit("msgstr["), I, lit("]")), "any"))
    out.append(Line("#~ and other space msgstr[ alone", cat(pre, lit("msgstr[")), "any"))
    return out


def parse(t):
    r = app("parse_usize", t)
    if r.k == "app":
        T.ENUM_OF.setdefault(r, RES)
    return r


# ------------------------------------------------------------------ roles


class Parser(object):
    """the parser of the crate, found by what its parts do"""

    def __init__(self, c):
        self.c, self.lib = c, c.lib
        lib = self.lib
        self.fn = c.need(lib.free("pofile"), "pofile")
        self.step = c.need(self.find_step(), "function reading one line")
        b = lib.facts.fns[self.step]["body"]
        self.adt = lib.facts.types[lib.facts.types[b["locals"][1]]["to"]]["adt"]
        self.pty = last(self.adt)
        self.fields = lib.facts.fields(self.adt)
        self.unesc = escaping.unescaped_role(c)
        self.roles()
        self.name_rest()

    def find_step(self):
        """(&mut parser, &str) -> Result<(), SyntaxError>, not called by another such function"""
        lib = self.lib
        F_ = lib.facts
        cand = []
        for i, f in F_.fns.items():
            b = f.get("body")
            if not b or b["argc"] != 2 or f.get("kind") == "Closure":
                continue
            if not norm(F_.ts(b["locals"][0])).startswith("std::result::Result<(), errors::SyntaxError>"):
                continue
            t, u = F_.types[b["locals"][1]], F_.types[b["locals"][2]]
            if t["k"] != "ref" or not t.get("mut") or F_.types[t["to"]]["k"] != "adt":
                continue
            if u["k"] != "ref" or F_.types[u["to"]]["k"] != "str":
                continue
            p = F_.types[t["to"]]["adt"]
            a = F_.adts.get(p)
            if not a or not a["local"] or a["kind"] != "struct":
                continue
            cand.append(i)
        inner = {k["def"] for i in cand for k in lib_callees(lib, i)}
        top = [i for i in cand if i not in inner]
        return top[0] if len(top) == 1 else None

    def roles(self):
        """parts of the parser by type"""
        F_ = self.lib.facts
        self.role = {}
        fs = F_.adts[self.adt]["variants"][0]["fields"]
        left = {"int": [], "bool": []}
        for f in fs:
            t = F_.types[f["ty"]]
            if t["k"] == "adt" and last(t["adt"]) in ("POFile", "POEntry"):
                self.role["file" if last(t["adt"]) == "POFile" else "entry"] = f["name"]
            elif t["k"] == "adt" and F_.adts.get(t["adt"], {}).get("local") and F_.adts[t["adt"]]["kind"] == "enum":
                self.role["state"] = f["name"]
                self.state_adt = t["adt"]
            elif t["k"] in left:
                left[t["k"]].append(f["name"])
        for r in ("file", "entry", "state"):
            self.c.need(self.role.get(r), "%s in the parser" % r)
        self.left = left

    # -------------------------------------------------------------- summaries

    def opaque(self):
        lib = self.lib

        def un(I, st, a):
            t = mk("app", "unescaped", (I.dd(st, a[0]),))
            T.ENUM_OF.setdefault(t, RES)
            return t

        return {self.unesc: un} if self.unesc else {}

    def me(self, state=None, **fs):
        """parser in a state; the other parts are free"""
        lib = self.lib
        base = sym("§me")
        e = lib.f(base, self.pty, self.role["entry"])
        ent = lib.build("POEntry", e, **fs.pop("entry", {}))
        f = lib.f(base, self.pty, self.role["file"])
        fl = lib.build("POFile", f)
        d = {self.role["entry"]: ent, self.role["file"]: fl}
        if state is not None:
            d[self.role["state"]] = agg(self.state_adt, state, [])
        d.update(fs)
        return lib.build(self.pty, base, **d)

    def run(self, me, line, ctx=TR, limit=30):
        return self.lib.summary(self.step, args=[me, line], ctx=ctx, extra=self.opaque(), key="po", limit=limit)

    def name_rest(self):
        """the line counter, plural index and obsolete mark by what lines do to them"""
        by = {l.name: l for l in classes()}
        self.by = by
        self.states = [v["name"] for v in self.lib.facts.adts[self.state_adt]["variants"]]
        self.ix = {n: self.states.index(n) for n in NAMES if n in self.states}
        if len(self.ix) != len(NAMES):
            raise Skip("states of the reader not recognised")
        base = sym("§me")
        f = lambda n: self.lib.f(base, self.pty, n)

        def after(cls, state):
            l = by[cls]
            s = self.run(self.me(self.ix[state]), l.text, l.ctx)
            return lambda n: interp.prune(band(l.ctx, bnorm(Q.is_ok(s.ret))), self.lib.f(s.mem("arg0"), self.pty, n))

        g = after("blank line", "ST")
        for n in self.left["int"]:
            if g(n) is add(f(n), num(1)):
                self.role["line"] = n
        g = after('msgstr[] "..."', "MI")
        for n in self.left["int"]:
            if g(n) is by['msgstr[] "..."'].index:
                self.role["index"] = n
        g = after('#~ msgid "..."', "ST")
        h = after('msgid "..."', "ST")
        for n in self.left["bool"]:
            if g(n) is TR and h(n) is F:
                self.role["obsolete"] = n
            elif g(n) is f(n):
                self.role["path"] = n

    # -------------------------------------------------------------- invariants

    def inv(self, state):
        """(entry fields, condition) known to hold when the reader is in a state"""
        if state in FIELD and FIELD[state] != "msgid":
            return {FIELD[state]: some(sym("§in"))}, TR
        if state == "MX" and "index" in self.role:
            me = sym("§me")
            pl = self.lib.f(self.lib.f(me, self.pty, self.role["entry"]), "POEntry", "msgstr_plural")
            return {}, icmp("lt", self.lib.f(me, self.pty, self.role["index"]), slen(pl))
        return {}, TR

    def step_in(self, state, cls):
        """(summary, condition) of a line of a class in a state"""
        fs, c = self.inv(state)
        me = self.me(self.ix[state], entry=fs)
        ctx = band(cls.ctx, c)
        return me, self.run(me, cls.text, ctx), ctx


# ------------------------------------------------------------------ what a line does


def lines_with(old, text):
    """text on a new line after what was there"""
    return opt(old, some(text), lambda o: some(cat(o, lit("\n"), text)))


def occurrence(w):
    p = app("split_once", w, lit(":"))
    if p.k == "app":
        T.ENUM_OF.setdefault(p, OPT)

    def parts(q):
        d = exists(app("chars", field(q, 1)), lambda x: bnot(band(icmp("ge", x, num(48)), icmp("le", x, num(57)))))
        return ite(d, tup(w, EMPTY), tup(field(q, 0), field(q, 1)))

    return opt(p, tup(w, EMPTY), parts)


class Effect(object):
    """what a line of a class does in a state, by the grammar: fails, or new values by role"""

    def __init__(self, P, state, cls, me, q):
        lib = P.lib
        self.P = P
        get = lambda n: lib.f(me, P.pty, P.role[n]) if n in P.role else None
        new = {n: get(n) for n in ("file", "entry", "line", "index", "obsolete", "path")}
        new["state"] = P.ix[state]
        new["line"] = add(new["line"], num(1)) if new["line"] is not None else None
        self.fails, self.unesc, self.new = F, F, new
        if cls.what == "any":
            self.fails = None
            return
        if cls.what == "blank":
            return
        new["obsolete"] = TR if cls.obsolete else F
        if cls.what == "skip":
            return
        if cls.what == "bad":
            self.fails = TR
            return
        nxt = TABLE[cls.symbol].get(state)
        if nxt is None:
            self.fails = TR
            return
        if cls.what in ("string", "plural"):
            self.fails = q
        sy = cls.symbol
        ent, fil = new["entry"], new["file"]
        if state in ("MS", "MX") and sy in ("TC", "GC", "OC", "FL", "PP", "PM", "PC", "CT", "MI"):
            u = mk("app", "unescaped", (ent,))
            T.ENUM_OF.setdefault(u, RES)
            self.unesc = bnot(bnorm(Q.is_ok(u)))
            fil = lib.build("POFile", fil, entries=cat(lib.f(fil, "POFile", "entries"), one(vfield(u, 0, 0))))
            ent = fresh(lib, new["line"])
            new["index"] = num(0)
        e = lambda n: lib.f(ent, "POEntry", n)
        put = lambda **k: lib.build("POEntry", ent, **k)
        v = cls.value
        if sy == "MC":
            f = FIELD.get(state)
            if f == "msgid":
                ent = put(msgid=cat(e("msgid"), v))
            elif f:
                ent = put(**{f: opt(e(f), NONE, lambda o: some(cat(o, v)))})
            else:
                pl = e("msgstr_plural")
                i = new["index"]
                ent = put(msgstr_plural=app("set", pl, i, cat(app("nth", pl, i), v)))
        elif sy == "MI":
            ent = put(msgid=v, obsolete=new["obsolete"])
        elif sy == "MX":
            pl = e("msgstr_plural")
            n = cls.index
            pad = add(sub(n, slen(pl)), num(1))
            pl = cat(pl, ite(icmp("lt", sub(n, slen(pl)), num(0)), EMPTY, over(app("range", num(0), pad), lambda _: one(EMPTY))))
            ent = put(msgstr_plural=app("set", pl, n, v))
            new["index"] = n
        elif sy in FIELD:
            ent = put(**{FIELD[sy]: some(v)})
        elif sy == "GC":
            ent = put(comment=lines_with(e("comment"), v))
        elif sy == "OC":
            ent = put(occurrences=cat(e("occurrences"), over(app("split_ws", v), lambda w: one(occurrence(w)))))
        elif sy == "FL":
            ent = put(flags=cat(e("flags"), over(app("split", v, lit(",")), lambda w: one(app("trim", w)))))
        elif nxt == "HE":
            h = lib.f(fil, "POFile", "header")
            v = drop(cls.marked, 2)
            h = opt(h, v, lambda o: ite(empty(o), v, cat(o, lit("\n"), v)))
            fil = lib.build("POFile", fil, header=some(h))
        elif nxt == "TC":
            v = app("trim_start_matches", cls.marked, lit("#"))
            b = app("starts", v, lit(" "))
            if b.k == "app":
                T.ENUM_OF.setdefault(b, "bool")
            v = ite(bnorm(b), app("sub", v, num(1), slen(v)), v)
            ent = put(tcomment=lines_with(e("tcomment"), v))
        new["entry"], new["file"] = ent, fil
        new["state"] = P.ix[nxt]


def drop(t, n):
    return app("sub", t, num(n), slen(t)) if T.lower(slen(t)) >= n else EMPTY


def fresh(lib, line):
    d = {}
    for f in lib.facts.adts[lib.adt("POEntry")]["variants"][0]["fields"]:
        t = lib.facts.ts(f["ty"])
        d[f["name"]] = line if t == "usize" else F if t == "bool" else NONE if "Option" in t.split("<")[0] else EMPTY
    return lib.build("POEntry", **d)


# ------------------------------------------------------------------ obligations


class Steps(object):
    """every class of lines in every state against the grammar"""

    def __init__(self, c):
        self.c, self.P = c, Parser(c)
        self.q = self.quote()
        self.left = {}

    def quote(self):
        """the condition on X under which a quoted value is refused"""
        P = self.P
        me, s, ctx = P.step_in("ST", P.by['msgid "..."'])
        return bnot(bnorm(Q.is_ok(interp.prune(ctx, s.ret))))

    def each(self, f, only=lambda l: True):
        """f(state, class, me, summary, condition, effect) -> None or what is not shown; one record per class"""
        P = self.P
        out = {}
        for l in P.by.values():
            if not only(l):
                continue
            n, bad = 0, []
            for st in NAMES:
                try:
                    me, s, ctx = P.step_in(st, l)
                    r = f(st, l, me, s, ctx, Effect(P, st, l, me, self.q))
                except Skip:
                    raise
                except T_ERRORS as x:
                    r = "%s: %s" % (type(x).__name__, str(x)[:100])
                n += 1
                if r:
                    bad.append("%s: %s" % (st, r))
            out[l.name] = (n, bad)
        return out


T_ERRORS = (interp.Unsupported, TimeoutError, KeyError, IndexError, AttributeError, TypeError, ValueError, RecursionError)


def same(a, b):
    return a is b or decide.equal(a, b)


PARTS = ("entry", "file", "index", "obsolete", "path", "line")


def stored(P):
    """C11: the new parser is as the grammar says whenever the line is accepted"""

    def f(st, l, me, s, ctx, e):
        if e.fails is None or e.fails is TR:
            return None
        good = band(ctx, bnot(e.fails), bnot(e.unesc))
        ret = interp.prune(good, s.ret)
        if bnorm(Q.is_ok(ret)) is not TR:
            return "refused"
        m = interp.prune(good, s.mem("arg0"))
        if not same(P.lib.f(m, P.pty, P.role["state"]), agg(P.state_adt, e.new["state"], [])):
            return "state"
        for k in PARTS:
            if k in P.role and not same(P.lib.f(m, P.pty, P.role[k]), interp.prune(good, e.new[k])):
                return k
        return None

    return f


def quote_spec():
    """an unescaped double quote in X"""
    S = app("chars", X)
    e = elem(S, -1)
    b = sym("§esc")
    T.ENUM_OF.setdefault(b, "bool")
    T.BOOLS.add(b)
    pf = loops.fold_of(S, e, [(b, F, ite(icmp("eq", e, num(92)), bval(bnot(bnorm(b))), F))])[1]
    T.ENUM_OF.setdefault(pf, "bool")
    T.BOOLS.add(pf)
    k = Q.bound_level(S, bval(band(icmp("eq", e, num(34)), bnot(bnorm(pf)))))
    c = T.replace(bval(band(icmp("eq", e, num(34)), bnot(bnorm(pf)))), {e: elem(S, k), idx(e): idx(elem(S, k))})
    return bnorm(Q.is_some(app("find", S, num(k), c)))


def refused(P, q):
    """C12: malformed lines give an error"""

    def f(st, l, me, s, ctx, e):
        if l.what == "bad" or l.symbol == "MC" and e.fails is TR:
            cond = ctx
        elif l.what in ("string", "plural") and e.fails is not None:
            cond = band(ctx, q)
        else:
            return None
        if bnorm(Q.is_ok(interp.prune(cond, s.ret))) is not F:
            return "accepted"
        return None

    return f


def positioned(P):
    """C13: errors carry the number of this line and the input they are about"""
    lib = P.lib
    A = lib.adt("SyntaxError")
    M = lib.adt("MaybeFilename")
    vs = lib.facts.adts[A]["variants"]

    def f(st, l, me, s, ctx, e):
        g = lambda n: lib.f(me, P.pty, P.role[n])
        r = interp.prune(ctx, s.ret)
        x = interp.prune(band(ctx, bnot(bnorm(Q.is_ok(r)))), vfield(r, 1, 0))
        if bnorm(Q.is_ok(r)) is TR:
            return None
        name = lib.f(lib.f(g("file"), "POFile", "options"), "FileOptions", "path_or_content")
        for y in T.leaves(x):
            if y.k != "agg" or y.a[0] != A:
                return "not recognised"
            for fl, v in zip(vs[y.a[1]]["fields"], y.a[2]):
                if fl["name"] == "line" and not same(v, e.new["line"]):
                    return "line"
                if last(lib.facts.ts(fl["ty"])) == "MaybeFilename" and not same(v, agg(M, 0, [name, g("path")])):
                    return "input"
        return None

    return f


def quiet(P):
    """C03: no operation that can fail is reached with arguments making it fail"""

    def f(st, l, me, s, ctx, e):
        for v in s.events:
            if v.kind.startswith("panic:") and Q.consistent(band(v.pc, ctx)) is not F:
                return "%s at %s:%s" % (v.kind[6:], v.site[1][0], v.site[1][1])
        return None

    return f


def propagated(P):
    """C02: a malformed escape in the entry being finished is an error"""

    def f(st, l, me, s, ctx, e):
        if e.unesc is F or e.fails is None:
            return None
        if bnorm(Q.is_ok(interp.prune(band(ctx, e.unesc), s.ret))) is not F:
            return "accepted"
        return None

    return f


# ------------------------------------------------------------------ what drives the lines

BOM = lit("\ufeff")
KINDS = ("bytes", "text", "path")


def app_e(tag, name, *a):
    t = app(name, *a)
    if t.k == "app":
        T.ENUM_OF.setdefault(t, tag)
    return t


class Driver(object):
    """summary of pofile() with the function reading one line opaque"""

    def __init__(self, P, kind):
        self.P, self.lib, self.kind = P, P.lib, kind
        lib = P.lib
        self.path = sym("P")
        self.isf = bnorm(app_e("bool", "is_file", self.path))
        self.opens = bnorm(app_e("bool", "opens", self.path))
        self.B = sym("B")
        o = sym("opt")
        if kind == "bytes":
            self.options = lib.build("FileOptions", o, path_or_content=self.path, byte_content=some(self.B))
            src, where = self.B, bnot(self.isf)
        elif kind == "text":
            self.options = lib.build("FileOptions", o, path_or_content=self.path, byte_content=NONE)
            src, where = self.path, bnot(self.isf)
        else:
            self.options = lib.build("FileOptions", o, path_or_content=self.path)
            src, where = app("file", self.path), band(self.isf, self.opens)
        self.src, self.where = src, where
        self.L = app("iolines", src)

    def opaque(self):
        P = self.P

        def step(I, st, a):
            me, line = I.dd(st, a[0]), I.dd(st, a[1])
            r = mk("app", "step", (me, line))
            T.ENUM_OF.setdefault(r, RES)
            I.write_ref(st, a[0], mk("app", "stepped", (me, line)))
            return r

        x = dict(P.opaque())
        x[P.step] = step
        return x

    def run(self, ctx):
        ctx = band(self.where, ctx)
        s = self.lib.summary(self.P.fn, args=[self.options], ctx=ctx, extra=self.opaque(), key="driver", limit=60)
        return s, interp.prune(ctx, s.ret), ctx

    def start(self, ret):
        """the parser given to the first line"""
        for t in T.subterms(ret):
            if t.k == "app" and t.a[0] == "step" and t.a[1][0].k == "agg":
                return t.a[1][0]
        raise Skip("no first line")


class Whole(object):
    """what reading makes of the lines: conditions and the file"""

    def __init__(self, D, p0):
        lib, P, L = D.lib, D.P, D.L
        self.D = D
        l0 = app("nth", L, num(0))
        T.ENUM_OF.setdefault(l0, RES)
        a = (p0, app("trim_start_matches", vfield(l0, 0, 0), BOM))
        s0 = mk("app", "step", a)
        T.ENUM_OF.setdefault(s0, RES)
        p1 = mk("app", "stepped", a)
        R = app("skip", L, num(1))
        e = elem(R, -1)
        T.ENUM_OF.setdefault(e, RES)
        q = sym("§p")
        self.last, pre = loops.fold_of(R, e, [(q, p1, mk("app", "stepped", (q, vfield(e, 0, 0))))])
        pre = lambda x: loops.fold_of(R, x, [(q, p1, mk("app", "stepped", (q, vfield(x, 0, 0))))])[1]

        def bad(x):
            T.ENUM_OF.setdefault(x, RES)
            st = mk("app", "step", (pre(x), vfield(x, 0, 0)))
            T.ENUM_OF.setdefault(st, RES)
            return bor(bnot(bnorm(Q.is_ok(x))), bnot(bnorm(Q.is_ok(st))))

        self.lines_ok = band(bnorm(Q.is_ok(l0)), bnorm(Q.is_ok(s0)), bnot(exists(R, bad)))
        f = first(R, bad)
        T.ENUM_OF.setdefault(f, OPT)
        self.good = {l0: ok(sym("§l0")), s0: ok(T.UNIT), f: NONE}

    def after(self, ret):
        """ret when every line could be read and was taken, in terms of the parser then"""
        r = interp.prune(self.lines_ok, ret)
        r = T.replace(r, {self.last: sym("§last")})
        return T.replace(r, self.good)


# entries that are not the metadata entry
OTHER = ({"msgid": cat(one(sym("§c")), sym("§m"))}, {"msgctxt": some(sym("§x"))})


class Finish(object):
    """the file made of the parser after the last line, by how the input ended"""

    def __init__(self, P, ret, last):
        self.P, self.lib = P, P.lib
        self.ret, self.last = ret, last

    def cases(self):
        """(name, result, parser, entries, state): every way the input can end"""
        P, lib = self.P, self.lib
        self.U = U = lib.build("POEntry", sym("§U"))
        for n in NAMES:
            for has in (True, False):
                if not has and n in ("MS", "MX"):
                    continue
                fs, c = P.inv(n)
                if n not in ("MS", "MX"):
                    fs = dict(fs, msgid=cat(one(sym("§c")), sym("§m")) if has else EMPTY)
                me = P.me(P.ix[n], entry=fs)
                ent = lib.f(me, P.pty, P.role["entry"])
                r = T.replace(self.ret, {self.last: me})
                u = mk("app", "unescaped", (ent,))
                E = lib.f(lib.f(me, P.pty, P.role["file"]), "POFile", "entries")
                if has:
                    bad = interp.prune(band(c, bnot(bnorm(Q.is_ok(u)))), r)
                    r = T.replace(r, {u: ok(U)})
                    E = cat(E, one(U))
                else:
                    bad = None
                r = interp.prune(c, r)
                yield n + (", entry finished" if has else ", nothing to finish"), r, bad, me, has

    def ismeta(self, e):
        return band(empty(self.lib.f(e, "POEntry", "msgid")), bnot(is_some(self.lib.f(e, "POEntry", "msgctxt"))))

    def files(self, r, me, has):
        """(where, file, metadata entry, its place among E or None, E, what comes after E) by where the metadata entry is"""
        lib, P = self.lib, self.P
        E = lib.f(lib.f(me, P.pty, P.role["file"]), "POFile", "entries")
        M = lib.build("POEntry", sym("§M"), msgid=EMPTY, msgctxt=NONE)
        m = first(E, self.ismeta)
        T.ENUM_OF.setdefault(m, OPT)
        tail = one(self.U) if has else EMPTY
        # the entry found is known to be one without msgid and context
        yield "among the entries", vfield(T.replace(r, {m: some(M)}), 0, 0), M, M, E, tail
        none = T.replace(r, {m: NONE})
        if has:
            L_ = lib.build("POEntry", sym("§U"), msgid=EMPTY, msgctxt=NONE)
            yield "in the last entry", vfield(T.replace(none, {self.U: L_, lib.f(self.U, "POEntry", "msgid"): EMPTY, lib.f(self.U, "POEntry", "msgctxt"): NONE}), 0, 0), L_, None, E, EMPTY
            none = interp.prune(bnot(self.ismeta(self.U)), none)
        yield "nowhere", vfield(none, 0, 0), None, None, E, tail

    def pairs(self, M, old):
        lib = self.lib
        S = app("split", or_empty(lib.f(M, "POEntry", "msgstr")), lit("\n"))
        x = elem(S, -1)
        q = sym("§m")
        kv = app_e(OPT, "split_once", x, lit(": "))

        def put(p):
            k, v = field(p, 0), app("trim", field(p, 1))
            o = app_e(OPT, "map_get", q, k)
            return app("map_insert", q, k, opt(o, v, lambda o: cat(o, v)))

        return loops.fold_of(S, x, [(q, old, opt(kv, q, put))])[0]

    def keeps(self, got, E, tail, M):
        """the entries without the metadata entry; None when shown"""
        items = list(T.items(got))
        if not items:
            return None if E is EMPTY and tail is EMPTY else "dropped"
        x = items[0]
        if x[0] == "F" and x[1] is E:
            _, S, n, b = x
            e = elem(S, n)
            for o in OTHER:
                o = self.lib.build("POEntry", sym("§o"), **o)
                if T.replace(b, {e: o}) is not one(o):
                    return "another entry is dropped"
            if M is not None and T.replace(b, {e: M}) is not EMPTY:
                return "metadata entry is kept"
        elif not (x[0] == "S" and x[1] is E and M is None):
            return "entries changed"
        rest = T.seq(items[1:])
        if tail is EMPTY:
            return None if rest is EMPTY else "something added"
        for o in OTHER:
            o = self.lib.build("POEntry", sym("§o"), **o)
            if T.replace(rest, {sym("§U"): o}) is not one(o):
                return "last entry changed"
        return None


def lib_callees(lib, i):
    import lib as LB
    return LB.callees(lib.facts.fns[i])


# ------------------------------------------------------------------ rules


class Claim(object):
    """obligations about the reader; what is not shown is decided by a counterexample"""

    def __init__(self, c):
        self.c = c
        self.todo = []
        self.focus = []  # (state, class) of lines with an open obligation
        self.S = None

    def steps(self):
        if self.S is None:
            self.S = Steps(self.c)
        return self.S

    @property
    def P(self):
        return self.steps().P

    def note(self, name, fn, why=None, detail=""):
        if why:
            self.todo.append((name, fn, why))
        else:
            self.c.record(name, fn, "proved", detail)

    def part(self, name, f, *a):
        try:
            f(*a)
        except Skip as x:
            self.todo.append((name, None, "skipped: %s" % x))
        except Exception as x:
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.todo.append((name, None, "%s: %s (%s:%d)" % (type(x).__name__, str(x)[:200], tb.filename.split("/")[-1], tb.lineno)))

    def lines(self, what, f, only=lambda l: True):
        def go():
            S = self.steps()
            for n, (k, bad) in S.each(f(self.P), only).items():
                self.focus += [(b.split(":")[0], n) for b in bad]
                self.note("%s: line class %s" % (what, n), self.P.step, "; ".join(bad)[:400], "%d states" % k)

        self.part(what, go)

    def settle(self, *hunts):
        """hunts: (name, lines maker, judge)"""
        from rules import pohunt

        if not self.todo:
            return
        c = self.c
        extra = ""
        code = pool = None
        more = []
        for what, make, judge in hunts:
            if not any(j is judge for _, _, j in more):
                more.append((what, None, judge))
        for what, make, judge in (more + list(hunts) if self.focus else list(hunts) + more):
            try:
                if code is None:
                    code = pohunt.Code(self.P)
                    pool = pohunt.mentioned(self.P, self.focus, code)
                w, n, why = pohunt.hunt(c, self.P, make or pohunt.around(self.P, self.focus), judge, code=code, pool=pool)
            except Exception as x:
                extra += " %s: %s" % (type(x).__name__, str(x)[:200])
                continue
            if w:
                name, fn, _ = self.todo[0]
                c.record(what, self.P.step, "violated", "not shown: %s" % "; ".join("%s (%s)" % (a, b) for a, _, b in self.todo[:6]), w)
                self.todo = [t for t in self.todo[1:]]
                break
            extra += " %d texts agree %s" % (n, why)
        for name, fn, why in self.todo:
            c.record(name, fn, "undecided", why + extra)


# -------------------------------------------------------------- driver


def skeletons(K, f):
    """f(kind, driver, summary, result, condition, start, whole) for each way of giving the input"""
    for k in KINDS:
        def go(k=k):
            D = Driver(K.P, k)
            s, r, ctx = D.run(bnot(empty(D.L)))
            p0 = D.start(r)
            f(k, D, s, r, ctx, p0, Whole(D, p0))

        K.part("input given as " + k, go)


def started(K, D, p0):
    """what the first line is given: a clean parser; None when shown"""
    P, lib = K.P, K.P.lib
    g = lambda n: lib.f(p0, P.pty, P.role[n])
    fo = lambda n: lib.f(g("file"), "POFile", n)
    want = [
        ("entries", fo("entries"), EMPTY), ("header", fo("header"), NONE), ("metadata", fo("metadata"), app("mapnew")),
        ("fuzzy mark", fo("metadata_is_fuzzy"), F), ("options", fo("options"), D.options),
        ("state", g("state"), agg(P.state_adt, P.ix["ST"], [])), ("entry", g("entry"), fresh(lib, num(0))),
    ]
    if "line" in P.role:
        want.append(("line", g("line"), num(0)))
    if "index" in P.role:
        want.append(("index", g("index"), num(0)))
    for n, a, b in want:
        if not same(interp.prune(D.where, a), b):
            return n
    if "path" in P.role and band(D.where, bnorm(g("path"))) is not (D.where if D.kind == "path" else F):
        return "path mark"
    return None


def pure(r):
    """r depends on the input only through the parser after the last line"""
    return not any(t.k == "app" and t.a[0] in ("step", "stepped", "iolines") for t in T.subterms(r))


def all_lines(K):
    """every line is given to the reader in order; a failing line or read is an error"""

    def f(k, D, s, r, ctx, p0, Wh):
        fn = K.P.fn
        bad = interp.prune(band(ctx, bnot(Wh.lines_ok)), bval(bnorm(Q.is_ok(r))))
        K.note("%s: a line that cannot be read or is refused makes the result an error" % k, fn, None if bad is F else "accepted")
        after = interp.prune(ctx, Wh.after(r))
        K.note("%s: otherwise the result is made from the parser after all lines" % k, fn, None if pure(after) else "other use of the input")
        K.note("%s: reading starts clean" % k, fn, started(K, D, p0))
        if s.I.unknown:
            K.note("%s: calls without a model" % k, fn, ", ".join(sorted(s.I.unknown))[:200])

    skeletons(K, f)

    def empty_input(k):
        D = Driver(K.P, k)
        s = K.P.lib.summary(K.P.fn, args=[D.options], ctx=D.where, extra=D.opaque(), key="driver", limit=60)
        # no line, or one that is blank
        _, r, _ = D.run(bnot(empty(D.L)))
        p0 = D.start(r)
        r = T.replace(s.ret, {D.L: EMPTY})
        a = (p0, EMPTY)
        p1 = K.P.lib.build(K.P.pty, p0, **{K.P.role["line"]: num(1)})
        r = interp.prune(D.where, T.replace(r, {mk("app", "step", a): ok(T.UNIT), mk("app", "stepped", a): p1}))
        K.note("%s: an input without lines is an empty file" % k, K.P.fn, None if bnorm(Q.is_ok(r)) is TR and K.P.lib.f(vfield(r, 0, 0), "POFile", "entries") is EMPTY else "not shown")

    for k in KINDS:
        K.part("empty input as " + k, empty_input, k)


def unopened(K):
    """a path that cannot be opened is an error"""
    D = Driver(K.P, "path")
    ctx = band(D.isf, bnot(D.opens))
    s = K.P.lib.summary(K.P.fn, args=[D.options], ctx=ctx, extra=D.opaque(), key="driver", limit=60)
    r = interp.prune(ctx, s.ret)
    K.note("path: a file that cannot be opened is an error", K.P.fn, None if bnorm(Q.is_ok(r)) is F else "accepted")
    return D, r


def endings(K, want):
    """the file for every way the input can end; want: which parts matter"""
    P, lib = K.P, K.P.lib
    D = Driver(P, "bytes")
    s, r, ctx = D.run(bnot(empty(D.L)))
    Wh = Whole(D, D.start(r))
    Fi = Finish(P, interp.prune(ctx, Wh.after(r)), sym("§last"))
    for n, rr, bad, me, has in Fi.cases():
        why = None
        if bnorm(Q.is_ok(rr)) is not TR:
            why = "refused"
        if "error" in want and bad is not None and bnorm(Q.is_ok(bad)) is not F:
            why = "malformed escape accepted"
        if why is None and want != {"error"}:
            f0 = lib.f(me, P.pty, P.role["file"])
            for wh, f, M, m, E, tail in Fi.files(rr, me, has):
                if why:
                    break
                got = lambda x: lib.f(f, "POFile", x)
                old = lambda x: lib.f(f0, "POFile", x)
                if "header" in want and not same(got("header"), old("header")):
                    why = "header"
                if "options" in want and not same(got("options"), old("options")):
                    why = "options"
                if "metadata" in want:
                    if not same(got("metadata"), Fi.pairs(M, old("metadata")) if M is not None else old("metadata")):
                        why = "metadata"
                    if not same(got("metadata_is_fuzzy"), bval(contains(lib.f(M, "POEntry", "flags"), FUZZY)) if M is not None else old("metadata_is_fuzzy")):
                        why = "fuzzy mark"
                if "entries" in want or "metadata" in want:
                    k = Fi.keeps(got("entries"), E, tail, m)
                    why = why or (k and "entries: " + k)
                if why:
                    why += " (metadata %s)" % wh
        K.note("input ending in state %s" % n, P.fn, why, "by where the metadata entry is: among the entries, in the last one, nowhere")


STRINGS_ONLY = lambda l: l.what in ("string", "plural")


def c03(c):
    K = Claim(c)
    from rules import pohunt

    K.lines("no failing operation", quiet)
    K.lines("states keep their invariants", stored, lambda l: l.symbol in ("MX", "MC") or STRINGS_ONLY(l))

    def driver():
        for k in KINDS:
            D = Driver(K.P, k)
            s = K.P.lib.summary(K.P.fn, args=[D.options], extra=D.opaque(), key="driver all", limit=60)
            K.note("%s: no failing operation before, between and after the lines" % k, K.P.fn, panics_of(s))
            K.note("%s: every call reached has a model" % k, K.P.fn, ", ".join(sorted(s.I.unknown))[:200], "%d functions" % len(s.I.analysed))

    K.part("driver", driver)

    def others():
        for fn in (K.P.unesc, K.P.lib.unesc):
            if fn:
                s = K.P.lib.summary(fn, limit=30)
                K.note("no failing operation when unescaping: " + fn, fn, panics_of(s))

    K.part("unescaping", others)
    K.settle(("reading a PO can panic", pohunt.damaged, pohunt.j_panic), ("reading a PO can panic", lambda r: pohunt.text(r, 0.2), pohunt.j_panic))


def panics_of(s):
    for e in s.events:
        if e.kind.startswith("panic:") and Q.consistent(e.pc) is not F:
            return "%s at %s:%s" % (e.kind[6:], e.site[1][0], e.site[1][1])
    return None


def c06(c):
    from rules import pohunt

    K = Claim(c)
    K.part("lines", all_lines, K)
    K.part("open", unopened, K)
    K.lines("malformed lines do not end reading early", lambda P: refused(P, K.S.q))
    K.lines("lines are taken", stored)
    K.settle(("part of the input is lost", pohunt.text, pohunt.j_lines))


def c11(c):
    from rules import pohunt

    K = Claim(c)
    K.lines("stored in its field", stored)
    K.part("lines", all_lines, K)
    K.part("endings", endings, K, {"entries"})
    K.settle(("a line is not stored as its keyword says", pohunt.text, pohunt.j_stored))


def c12(c):
    from rules import pohunt

    K = Claim(c)

    def quotes():
        q = K.steps().q
        K.note("quoted values are refused exactly for an unescaped quote inside", K.P.step, None if same(bval(q), bval(quote_spec())) else "other condition")

    K.part("quotes", quotes)
    K.lines("malformed lines are refused", lambda P: refused(P, quote_spec()))
    K.part("lines", all_lines, K)
    K.settle(("a malformed line is accepted", pohunt.damaged, pohunt.j_refused))


def c13(c):
    from rules import pohunt

    K = Claim(c)
    K.lines("errors carry the line and the input", positioned)
    K.lines("lines are counted", counted)
    K.part("lines", all_lines, K)

    def opening():
        D, r = unopened(K)
        lib = K.P.lib

        def named(x):
            return x.k == "agg" and x.a[0] == lib.adt("MaybeFilename") and x.a[2][0] is D.path and band(D.isf, bnorm(x.a[2][1])) is D.isf

        e = vfield(r, 1, 0)
        good = e.k == "agg" and any(named(x) for x in e.a[2])
        K.note("path: the error for a file that cannot be opened names it", K.P.fn, None if good else "not named")

    K.part("open", opening)
    c.part("text of errors", displayed, c)
    K.settle(("an error names the wrong line or input", pohunt.damaged, pohunt.j_position), ("an error names the wrong line or input", lambda r: pohunt.text(r, 0.2), pohunt.j_position))


def counted(P):
    """every line, taken or refused, counts once"""

    def f(st, l, me, s, ctx, e):
        if "line" not in P.role:
            return "no line counter"
        m = interp.prune(ctx, P.lib.f(s.mem("arg0"), P.pty, P.role["line"]))
        return None if same(m, e.new["line"]) else "line counter"

    return f


def displayed(c):
    """the text of a positioned error shows its line, and its file only when it is one"""
    lib = c.lib
    A = lib.adt("SyntaxError")
    fn = c.need(lib.method("SyntaxError", "fmt", "Display"), "text of syntax errors")
    for k, v in enumerate(lib.facts.adts[A]["variants"]):
        names = [f["name"] for f in v["fields"]]
        if "maybe_filename" not in names:
            continue
        for path in (TR, F):
            args, vals = [], {}
            for f in v["fields"]:
                t = sym("§" + f["name"])
                if f["name"] == "maybe_filename":
                    t = agg(lib.adt("MaybeFilename"), 0, [sym("§name"), path])
                args.append(t)
            s = lib.summary(fn, args=[agg(A, k, args), sym("§fmt")], key="shown")
            out = s.mem("arg1")
            E = ev.Eval({sym("§name"): "/dir/NAME.po", sym("§line"): 4711, sym("§index"): 9, sym("§message"): "MSG", sym("§fmt"): ""}, {})
            what = "text of %s error %s" % (v["name"], "about a path" if path is TR else "about content")
            try:
                t = E(out)
            except (ev.Opaque, ev.Undef, TypeError) as x:
                c.record(what, fn, "undecided", str(x))
                continue
            t = t if isinstance(t, str) else str(t)
            bad = "line" in names and "4711" not in t or ("NAME.po" in t) != (path is TR) or "message" in names and "MSG" not in t
            c.record(what, fn, "violated" if bad else "proved", "", {"text": t} if bad else None)


def c27(c):
    from rules import pohunt

    K = Claim(c)
    K.part("endings", endings, K, {"entries", "metadata", "header"})
    K.part("lines", all_lines, K)
    K.lines("header and flags", stored, lambda l: l.symbol in ("TC", "FL", "MS", "MI", "MC", "CT"))
    c.part("MO metadata", moread.mo_metadata, c)
    K.settle(("metadata, header or fuzzy mark not as written", pohunt.text, pohunt.j_meta))


def c28(c):
    from rules import pohunt

    K = Claim(c)
    K.part("lines", all_lines, K)

    def alike():
        seen = {}

        def f(k, D, s, r, ctx, p0, Wh):
            seen[k] = interp.prune(ctx, Wh.after(r))

        skeletons(K, f)
        for k in KINDS[1:]:
            K.note("%s: same file from the same parser as from bytes" % k, K.P.fn, None if k in seen and seen[k] is seen.get("bytes") else "differs")

    K.part("ways of giving the input", alike)
    K.part("endings", endings, K, {"options"})
    c.part("conversions", conversions, c)
    c.part("MO", moread.mo_sources, c)
    K.settle(("ways of giving the input differ", pohunt.text, pohunt.j_sources), ("ways of giving the input differ", pohunt.damaged, pohunt.j_sources))


def conversions(c):
    """options keep what they are made from"""
    lib = c.lib
    F_ = lib.facts
    d = c.need(lib.method("FileOptions", "default", "Default"), "default options")
    dflt = lib.summary(d).ret
    for i, f in F_.fns.items():
        if not f.get("body") or f["name"] != "from" or f.get("impl_self") is None or last(norm(F_.ts(f["impl_self"]))) != "FileOptions":
            continue
        if last(f.get("impl_trait") or "") != "From":
            continue
        src = F_.types[f["body"]["locals"][1]]
        s = lib.summary(i)
        x = list(s.inputs)[0] if s.inputs else None
        g = lambda n: lib.f(s.ret, "FileOptions", n)
        t = norm(src["s"])
        parts = [(x, src)]
        if src["k"] == "tuple":
            parts = [(field(x, j), F_.types[a]) for j, a in enumerate(src["args"])]
        want = {n: lib.f(dflt, "FileOptions", n) for n in F_.fields(lib.adt("FileOptions"))}
        for v, ty in parts:
            ts = norm(ty["s"])
            if "FileOptions" in ts:
                want = {n: lib.f(v, "FileOptions", n) for n in want}
            elif ts == "usize":
                want["wrapwidth"] = v
            elif "Vec<u8>" in ts:
                want["byte_content"] = some(v)
            else:
                want["path_or_content"] = v
        for n, w in want.items():
            c.same("options from %s: %s" % (t, n), i, g(n), w, {x: f["body"]["locals"][1]})
    c.same("default wrap width", d, lib.f(dflt, "FileOptions", "wrapwidth"), num(78), {})
    c.same("default content", d, tup(lib.f(dflt, "FileOptions", "path_or_content"), lib.f(dflt, "FileOptions", "byte_content")), tup(EMPTY, NONE), {})


def c02_reading(c):
    from rules import pohunt

    K = Claim(c)
    K.lines("malformed escapes are refused when the entry ends", propagated)
    K.part("endings", endings, K, {"error"})
    K.part("lines", all_lines, K)
    K.settle(("a malformed escape is accepted", lambda r: pohunt.text(r, 0.25), pohunt.j_escape))


# ------------------------------------------------------------------ C08


def unescaped_once(c):
    """an entry with well-formed escapes: each string field unescaped, the rest as it was"""
    lib = c.lib
    fn = c.need(escaping.unescaped_role(c), "function unescaping an entry")
    s = lib.summary(fn)
    e = list(s.inputs)[0]
    un = lambda v: vfield(escaping.unesc_of(v), 0, 0)
    d = {}
    for n in lib.facts.fields(lib.adt("POEntry")):
        v = lib.f(e, "POEntry", n)
        if n == "msgid":
            v = un(v)
        elif n in escaping.STRINGS:
            v = opt(v, NONE, lambda o: some(un(o)))
        elif n == "msgstr_plural":
            v = over(v, lambda x: one(un(x)))
        d[n] = v
    good = bnorm(Q.is_ok(s.ret))
    code = vfield(interp.prune(good, s.ret), 0, 0)
    for n, w in d.items():
        g = lambda gg: wellformed(gg, lib)
        c.same("reading: %s unescaped %s" % (n, "once" if n in escaping.STRINGS + ("msgstr_plural",) else "never"), fn,
               lib.f(code, "POEntry", n), w, {e: g}, assume=good)


def wellformed(g, lib):
    v = g.ty(lib.ty_of("POEntry"))
    tx = lambda: "".join(g.r.choice(("a", "b c", "\\n", "\\\\", '\\"', "\\\\n", "\\t", "é")) for _ in range(g.r.choice((0, 1, 2, 4))))
    for i, n in enumerate(lib.facts.fields(lib.adt("POEntry"))):
        if n == "msgid":
            v = escaping.setfield(v, i, tx())
        elif n == "msgstr_plural":
            v = escaping.setfield(v, i, [tx() for _ in range(g.r.choice((0, 1, 2)))])
        elif n in escaping.STRINGS or n in ("comment", "tcomment"):
            v = escaping.setfield(v, i, ev.some(tx()) if g.r.random() < 0.7 else ev.NONE)
        elif n == "flags":
            v = escaping.setfield(v, i, [tx() for _ in range(g.r.choice((0, 1, 2)))])
    return v


def unlike(view):
    """agreement unless the two differ only by what escaping adds or removes"""
    from rules import pohunt

    def f(a, b):
        x, y = view(a), view(b)
        return x == y or pohunt.strip(x) != pohunt.strip(y)

    return f


def c08(c):
    from rules import pohunt, mowrite

    powrite.entries(c, "string values escaped once, comments not", powrite.c08_ok, special=0.7, comments=0.3)
    c.part("metadata", powrite.meta_entry, c, "string values escaped once", powrite.c08_ok, 0.7)
    c.part("text of a file", powrite.file_texts, c, lambda a, b: unlike(ev.text)(a, b), "the parts are put together as they are")
    c.part("unescaping", unescaped_once, c)
    c.part("MO writing", mowrite.whole, c, "MO writing: values not escaped", unlike(lambda v: repr(mowrite.parse(v))))
    c.part("MO reading", moread.whole, c, "MO reading: values not unescaped", moread.p_fields("entries", "metadata"), unlike(lambda v: repr(v)))
    K = Claim(c)
    K.lines("kept as written until the entry ends, then unescaped once", stored)
    K.part("endings", endings, K, {"entries"})
    K.part("lines", all_lines, K)
    K.settle(("a field is not unescaped exactly once", pohunt.text, pohunt.j_once))
