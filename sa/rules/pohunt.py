"""Counterexamples for the PO reader.

Used when an obligation of the reader is not shown: the summaries of the
driver and of the function reading one line are evaluated at generated texts
and compared with an independent reading of the grammar.
"""
import random
import re
import time
import decide
import ev
import interp
from rules.common import *  # noqa
from rules import poread

WS = "".join(chr(i) for i in (9, 10, 11, 12, 13, 32, 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000, *range(0x2000, 0x200B)))
AWS = " \t\n\x0c\r"
ENTRY = ("msgid", "msgstr", "msgid_plural", "msgstr_plural", "msgctxt", "obsolete", "comment", "tcomment", "occurrences", "flags", "previous_msgid", "previous_msgid_plural", "previous_msgctxt")
STRS = ("msgid", "msgstr", "msgid_plural", "msgctxt", "previous_msgid", "previous_msgid_plural", "previous_msgctxt")


LISTS = ("msgstr_plural", "occurrences", "flags")


class Panic(Exception):
    pass


class Unspecified(Exception):
    """the text uses a form the grammar does not settle"""


class Bad(Exception):
    def __init__(self, line, why):
        self.line, self.why = line, why


# ------------------------------------------------------------------ the grammar


def unquote(v, n):
    if len(v) < 2 or v[0] != '"' or v[-1] != '"':
        raise Bad(n, "quotes")
    x = v[1:-1]
    esc = False
    for ch in x:
        if ch == '"' and not esc:
            raise Bad(n, "quote inside")
        esc = ch == "\\" and not esc
    return x


def word(s):
    m = re.match("[^%s]*" % AWS, s)
    return m.group(0), s[m.end():]


def classify(line, n):
    """(symbol or None, value, index, obsolete)"""
    s = line.strip(WS)
    if not s:
        return None, None, None, None
    t, rest = word(s)
    obs = False
    if t == "#~|":
        return None, None, None, None
    if t == "#~":
        obs = True
        s = rest.lstrip(AWS)
        if not s or s[0] in WS:
            raise Unspecified()
        t, rest = word(s)
        if t in ("#|", "#~", "#~|"):
            raise Unspecified()
    prev = False
    if t == "#|":
        prev = True
        if not rest:
            raise Bad(n, "keyword")
        s = rest.lstrip(AWS)
        if s[0] in WS:
            raise Unspecified()
        t, rest = word(s)
    if s.startswith('"'):
        return "MC", unquote(s, n), None, obs
    if prev and t not in poread.PREVIOUS:
        raise Bad(n, "keyword")
    if t in poread.KEYWORDS:
        if not rest:
            raise Bad(n, "keyword")
        return (poread.PREVIOUS if prev else poread.KEYWORDS)[t], unquote(rest.lstrip(WS), n), None, obs
    if t.startswith("msgstr["):
        i = s.find("]")
        if i < 0:
            raise Bad(n, "index")
        ix = s[7:i]
        if not re.fullmatch(r"\+?[0-9]+", ix) or int(ix) >= poread.MAX_PLURALS:
            raise Bad(n, "index")
        return "MX", unquote(s[i + 1:].lstrip(WS), n), int(ix), obs
    for m, sy in (("#.", "GC"), ("#:", "OC"), ("#,", "FL")):
        if t == m:
            return (sy, rest[1:], None, obs) if rest else ("", None, None, obs)
    if t == "#" or t.startswith("##"):
        return "TC", s, None, obs
    raise Bad(n, "keyword")


def occurrence(w):
    if ":" in w:
        a, b = w.split(":", 1)
        if all("0" <= ch <= "9" for ch in b):
            return (a, b)
    return (w, "")


def clean():
    d = {k: None for k in ENTRY}
    d.update(msgid="", msgstr_plural=[], occurrences=[], flags=[], obsolete=False)
    return d


def unescaped(e, n):
    e = dict(e)
    for k in STRS:
        if e[k] is not None:
            r = ev.unescape(e[k])
            if r.v != 0:
                raise Bad(n, "escape")
            e[k] = r.f[0]
    out = []
    for x in e["msgstr_plural"]:
        r = ev.unescape(x)
        if r.v != 0:
            raise Bad(n, "escape")
        out.append(r.f[0])
    e["msgstr_plural"] = out
    return e


def reading(lines):
    """the file the lines describe"""
    st, cur, ix = "ST", clean(), 0
    entries, header = [], None
    n = 0
    for n, line in enumerate(lines, 1):
        if n == 1:
            line = line.lstrip("\ufeff")
        sy, v, i, obs = classify(line, n)
        if not sy:
            continue
        nxt = poread.TABLE[sy].get(st)
        if nxt is None:
            raise Bad(n, "continuation" if sy == "MC" else "order")
        if st in ("MS", "MX") and sy in ("TC", "GC", "OC", "FL", "PP", "PM", "PC", "CT", "MI"):
            entries.append(unescaped(cur, n))
            cur, ix = clean(), 0
        if sy == "MC":
            if st == "MX":
                cur["msgstr_plural"] = list(cur["msgstr_plural"])
                cur["msgstr_plural"][ix] += v
            else:
                cur[poread.FIELD[st]] += v
        elif sy == "MI":
            cur["msgid"], cur["obsolete"] = v, obs
        elif sy == "MX":
            p = list(cur["msgstr_plural"])
            p += [""] * (i + 1 - len(p))
            p[i] = v
            cur["msgstr_plural"], ix = p, i
        elif sy in poread.FIELD:
            cur[poread.FIELD[sy]] = v
        elif sy == "GC":
            cur["comment"] = v if cur["comment"] is None else cur["comment"] + "\n" + v
        elif sy == "OC":
            cur["occurrences"] = cur["occurrences"] + [occurrence(w) for w in re.split("[%s]+" % WS, v) if w]
        elif sy == "FL":
            cur["flags"] = cur["flags"] + [w.strip(WS) for w in v.split(",")]
        elif nxt == "HE":
            v = v[2:]
            header = v if not header else header + "\n" + v
        else:
            v = v.lstrip("#")
            if v.startswith(" "):
                v = v[1:]
            cur["tcomment"] = v if cur["tcomment"] is None else cur["tcomment"] + "\n" + v
        st = nxt
    if st in ("MS", "MX") or cur["msgid"]:
        entries.append(unescaped(cur, n))
    meta, fuzzy = {}, False
    for e in entries:
        if e["msgid"] == "" and e["msgctxt"] is None:
            # a second such entry is not a metadata entry
            fuzzy = "fuzzy" in e["flags"]
            for l in (e["msgstr"] or "").split("\n"):
                if ": " in l:
                    k, w = l.split(": ", 1)
                    meta[k] = meta.get(k, "") + w.strip(WS)
            entries = [x for x in entries if x is not e]
            if any(x["msgid"] == "" and x["msgctxt"] is None for x in entries):
                raise Unspecified()
            break
    return entries, header, meta, fuzzy


# ------------------------------------------------------------------ texts

VALUES = ["", "a", "b", "foo bar", "f\\\"q\\\"", "x\\n", "\\n", "a\\tb", "日本語", "é", "\\\\", "c:\\\\dir\\\\name", "%d files", "# no", "msgid", "trail ", " lead", "a, b", "1:2", "\\\\n", "~", "'q'", "\u00a0x"]
KEYS = ["Project-Id-Version", "Language", "Plural-Forms", "X-A", "Content-Type"]
MALFORMED = ["bad\\q", "end\\", "\\0", "a\\xb"]


PUNCT = list(".:,;!?#~|'`-_=+*/()[]{}<>@&%$^ \u00a0\u3000")


def mixed(r, s):
    """s with something at an end or inside: punctuation, or a text the code mentions"""
    pool = getattr(r, "pool", None)
    x = r.choice(pool) if pool and r.random() < 0.6 else r.choice(PUNCT)
    if r.random() < 0.3:
        x += r.choice(PUNCT)
    j = r.choice((0, len(s), r.randrange(len(s) + 1)))
    return s[:j] + x + s[j:]


def value(r, esc=0.0):
    if r.random() < esc:
        return r.choice(MALFORMED[:1] + MALFORMED[2:])
    if r.random() < 0.2:
        x = mixed(r, r.choice(("", "a", "foo bar", "日本")))
        if not re.search('["\\\\\n\r]', x):
            return x
    return "".join(r.choice(VALUES) for _ in range(r.choice((1, 1, 1, 2))))


def strfield(r, pre, kw, esc, cont):
    out = ['%s%s "%s"' % (pre, kw, value(r, esc))]
    while r.random() < cont:
        out.append('%s"%s"' % ("#| " if kw.startswith("#|") else pre, value(r, esc)))
    return out


def comment(r):
    x = r.choice(["note", "two words", "x\\ty", 'say "hi"', "日本", "a: b", "msgid \"x\"", "12", " indented", "# hash"])
    if r.random() < 0.4:
        x = re.sub("[\n\r]", "", mixed(r, x))
    return x if x.strip(WS) else "note"


def entry(r, esc, obs=None):
    """lines of one well-formed entry"""
    cont = r.choice((0.0, 0.2, 0.6))
    obs = r.random() < 0.15 if obs is None else obs
    pre = "#~ " if obs else ""
    out = []
    cm = lambda: comment(r)
    if r.random() < 0.3:
        out += ["# " + cm() for _ in range(r.choice((1, 2)))]
    if r.random() < 0.3:
        out += ["#. " + cm() for _ in range(r.choice((1, 2, 3)))]
    if r.random() < 0.35:
        out += ["#: " + " ".join(r.choice(["a.rs:1", "b.rs:22", "file", "src/x.py:345", "c:d:7", "z:9a", "big.c:12345678901234567890", ":5", "e:", "f:007", "g:1:2", "h:1,2"]) for _ in range(r.choice((1, 2, 3)))) for _ in range(r.choice((1, 2)))]
    if r.random() < 0.35:
        out += ["#, " + ", ".join(r.sample(["fuzzy", "c-format", "no-wrap", "python-format"], r.choice((1, 2)))) for _ in range(r.choice((1, 1, 2)))]
    if not obs:
        for kw in ("msgctxt", "msgid", "msgid_plural"):
            if r.random() < 0.15:
                out += strfield(r, "", "#| " + kw, esc, cont)
    if r.random() < 0.3:
        out += strfield(r, pre, "msgctxt", esc, cont)
    v = strfield(r, pre, "msgid", esc, cont)
    if any("msgctxt" in l and "#|" not in l for l in out) and r.random() < 0.2:
        v = [pre + 'msgid ""']  # a context without a text is an entry like any other
    elif v[0] == '%smsgid ""' % pre:
        v = ['%smsgid "k%d"' % (pre, r.randrange(99))]
    out += v
    if r.random() < 0.3:
        out += strfield(r, pre, "msgid_plural", esc, cont)
        ks = list(range(r.choice((1, 2, 3))))
        if r.random() < 0.15:
            r.shuffle(ks)
        if r.random() < 0.1:
            ks[-1] += 1
        for k in ks:
            out += strfield(r, pre, "msgstr[%d]" % k, esc, cont)
    else:
        out += strfield(r, pre, "msgstr", esc, cont)
    return out


def metadata(r):
    out = []
    if r.random() < 0.3:
        out.append("#, " + r.choice(["fuzzy", "fuzzy, c-format", "c-format", "no-wrap, fuzzy"]))
    out += ['msgid ""', 'msgstr ""']
    for _ in range(r.choice((0, 1, 2, 4))):
        out.append('"%s"' % r.choice(["%s: %s\\n" % (r.choice(KEYS), r.choice(["1", "text/plain; charset=UTF-8", "a: b", "", " padded ", "x\\\"y"])), "no colon\\n", "tight:value\\n"]))
    return out


def text(r, esc=0.0, plain=0.0):
    """lines of a well-formed file"""
    out = []
    if r.random() < 0.4:
        out += ["# " + r.choice(["Copyright", "FIRST AUTHOR", "x", "a: b"]) for _ in range(r.choice((1, 2, 3)))]
        if r.random() < 0.3:
            out.insert(r.randrange(len(out) + 1), "#")
    late = r.random() < 0.1
    if r.random() < 0.5 and not late:
        out += metadata(r)
    for _ in range(r.choice((0, 1, 1, 2, 3))):
        if out and r.random() < 0.7:
            out += [""] * r.choice((1, 1, 2))
        e = entry(r, esc)
        if not out or all(l.startswith("#") or not l for l in out):
            # a comment here would belong to the header
            e = [l for l in e if not l.startswith("# ")]
        out += e
        if late and r.random() < 0.5:
            out += metadata(r)
            late = False
    if r.random() < 0.1 and out:
        i = r.randrange(len(out) + 1)
        if i == len(out) or out[i].startswith("msg"):
            out.insert(i, "")
    return out


BADLINES = ["msgfoo \"x\"", "msgid", "msgid foo", "msgid \"", "msgid \"foo", "msgid foo\"", 'msgid "a"b"', "msgstr[x] \"a\"", "msgstr[] \"a\"", "msgstr[0 \"a\"", "msgstr[0]",
            'msgstr[-1] "a"', 'msgstr[99999] "a"', 'msgstr[0] "a', "foo", "foo bar", "#| foo \"x\"", "#|", "#| msgid \"x", "#| msgid x", '"loose"', '"', '"x', "#| \"", "#| msgctxt", "#| \"x\"",
            "msgctxt x", "msgstr \"a\"b\"", 'msgctxt "\\"', "#~ foo", "#~ msgid x", "#~ msgstr[y] \"\"", "#x", "msgid\"x\"", "é", "msgstr", 'msgid_plural x"', "#é", "#~ \"x", "msgid_plural", "msgstr[é] \"a\"", "é\"", "#|é", "#~é", "msgstr[18446744073709551616] \"\"", "#~ #| msgid", "#~ #|", "#~", "#~\u00a0x", "msgid \u00a0", "msgid\u00a0\"x\"", "# \u3000", "#.\u00a0x", "#: \u00a0", "#,", "#:", "#.", "##", "#~ msgid \"", "#~ #| msgid \"", "#~ #| é", "#~ é", '#| msgid "', "\u2028", '#| msgid "é', 'msgstr[0] é', "#~ msgstr[", "msgstr[", "msgstr[]",
            '#| msgstr "x"', '#| msgstr[0] "x"', '#| # x', '#| #, x', '##\u00a0x', '#\u00a0x', 'msgid "a\\\\"b"', 'msgstr "\\\\\\\\"x"', '"a\\"', 'msgid "a\\\\\\"', 'msgid "\\\\"', 'msgstr[1024] "x"', 'msgstr[ 1] "x"', 'msgstr[1 ] "x"', 'msgstr [0] "x"', "msgid 'x'", 'msgstr[1a] "x"', 'msgstr[0x1] "x"', 'msgstr[a1] "x"', 'msgstr[1.0] "x"', 'msgstr[1,2] "x"', 'msgstr[\u0663] "x"', 'msgstr[1_0] "x"', 'msgstr["0"] "x"']


def damaged(r):
    """lines of a file with one thing wrong somewhere"""
    out = text(r) or ['msgid "a"', 'msgstr "b"']
    k = r.random()
    i = r.randrange(len(out) + 1)
    if k < 0.5:
        b = r.choice(BADLINES)
        if r.random() < 0.2:
            b = "  " + b + r.choice(("", " ", "\t"))
        out.insert(i, b)
    elif k < 0.8:
        i = r.randrange(len(out))
        l = out[i]
        j = r.randrange(len(l) + 1)
        out[i] = r.choice([l[:j], l[j:], l[:j] + '"' + l[j:], l[:j] + "é" + l[j:], l.rstrip('"'), l.replace(" ", "", 1), l.replace('"', "", 1), l + '"', l[:j] + "\\" + l[j:]])
    elif k < 0.9:
        del out[r.randrange(len(out))]
    else:
        i, j = r.randrange(len(out)), r.randrange(len(out))
        out[i], out[j] = out[j], out[i]
    return out


# ------------------------------------------------------------------ texts around one class of lines

PATHS = {"ST": [], "HE": ["# h"], "TC": ['#. g', "# c"], "GC": ["#. c"], "OC": ["#: a:1"], "FL": ["#, fuzzy"], "PC": ['#| msgctxt "a"'], "PM": ['#| msgid "a"'], "PP": ['#| msgid_plural "a"'],
         "CT": ['msgctxt "a"'], "MI": ['msgid "a"'], "MP": ['msgid "a"', 'msgid_plural "b"'], "MS": ['msgid "a"', 'msgstr "b"'], "MX": ['msgid "a"', 'msgid_plural "b"', 'msgstr[0] "c"']}
ENDS = [[], [""], ['msgid "z"', 'msgstr "y"'], ['msgstr "y"'], ['"more"', 'msgstr "y"'], ['"more"'], ['msgid_plural "p"', 'msgstr[0] "y"'], ['msgstr[0] "q"'], ['msgstr[1] "q"', '"more"'], ["#. g", 'msgid "z"', 'msgstr "y"']]


def instance(r, l):
    """a line of class l"""
    ws = lambda cs, k: "".join(r.choice(cs) for _ in range(r.choice(k)))
    some = lambda: (r.choice(VALUES + MALFORMED + ["x", 'q"q', '\\\\"', '\\"', "x y", "msgstr[", "]"]) if r.random() < 0.6 else mixed(r, r.choice(("", "a", "foo", "#", '"'))))
    ne = lambda: some().strip(WS) or r.choice(("x", "é", "msgfoo", "foo:1 bar"))
    for _ in range(30):
        v = {poread.PRE: ws(" \t\u00a0", (0, 0, 0, 1)), poread.POST: ws(" \t\r\u3000", (0, 0, 0, 1))}
        for u in (poread.U1, poread.U2):
            v[u] = ws(" \t\u00a0\u3000", (0, 0, 1))
        for u in (poread.A1, poread.A2):
            v[u] = ws(" \t", (0, 0, 1))
        for u in (poread.W1, poread.W2, poread.W3):
            v[u] = ord(r.choice("   \t"))
        v[poread.N1] = ord(r.choice("\u00a0\u3000\u2003"))
        v[poread.V], v[poread.K], v[poread.X], v[poread.Z] = ne(), ne().replace("]", ")"), some(), some()
        v[poread.TOK] = re.sub("[%s]" % AWS, "", ne()) or "w"
        v[poread.I] = r.choice(("0", "1", "2", "0", "00", "+1", "", "x", "-1", "1024", "99999999999999999999", " 1", "é", some().replace("]", "")))
        try:
            E = ev.Eval(v)
            if E.truth(l.ctx):
                t = E(l.text)
                if "\n" not in t:
                    return t
        except (ev.Opaque, ev.Undef):
            continue
    return r.choice(BADLINES)


def around(P, focus):
    """texts with a line of a class, mostly in a state, for which an obligation is open"""
    ls = list(P.by.values())

    def make(r):
        st, name = r.choice(focus) if focus and r.random() < 0.85 else (r.choice(sorted(PATHS)), r.choice(ls).name)
        out = []
        if r.random() < 0.3 and st not in ("ST", "HE"):
            out += metadata(r)
        if st not in ("ST", "HE") and r.random() < 0.3 or st == "TC":
            out += ['msgid "first"', 'msgstr "%s"' % value(r)]
        out += PATHS.get(st, [])
        if r.random() < 0.2:
            out += PATHS.get(st, [])[-1:]
        out.append(instance(r, P.by.get(name) or r.choice(ls)))
        if r.random() < 0.25:
            out.append(instance(r, P.by.get(name) or r.choice(ls)))
        return out + r.choice(ENDS)

    return make


# ------------------------------------------------------------------ the code


class Code(object):
    """pofile() at given inputs, from its summaries"""

    def __init__(self, P):
        self.P, self.lib = P, P.lib
        self.D = {k: poread.Driver(P, k) for k in poread.KINDS}
        self.steps = {}
        self.memo = {}
        self.until = time.time() + 1e6
        self.un = None
        self.sums = {}
        names = P.fields
        self.ix = names.index(P.role["state"])

    def step(self, me, line):
        if time.time() > self.until:
            raise ev.Opaque("time")
        if any(isinstance(x, list) and len(x) > 20 for x in me):
            r = self.step1(me, line)
        else:
            key = (repr(me), line)
            r = self.memo.get(key)
            if r is None:
                r = self.memo[key] = self.step1(me, line)
        if r[0] == "panic":
            raise Panic(r[1])
        return r

    def step1(self, me, line):
        P = self.P
        k = me[self.ix].v
        s = self.steps.get(k)
        t = sym("§line")
        if s is None:
            s = self.steps[k] = P.run(P.me(k), t, limit=60)
        E = ev.Eval({sym("§me"): me, t: line}, self.funs())
        self.events(E, s)
        return E(s.ret), E(s.mem("arg0"))

    def events(self, E, s):
        for e in s.events:
            if e.kind.startswith("panic:"):
                try:
                    hit = self.free(E, e.pc)
                except (ev.Opaque, ev.Undef):
                    continue
                if hit:
                    raise Panic("%s at %s:%s" % (e.kind[6:], e.site[1][0], e.site[1][1]))

    def free(self, E, pc):
        """pc holds for some element"""
        fs = [f for f in ev.fv(pc) if f not in E.val]
        if any(f.k != "elem" for f in fs):
            raise ev.Opaque("state of a loop")

        def go(i):
            if i == len(fs):
                return E.truth(pc)
            for _ in E.each(fs[i].a[0], fs[i]):
                if go(i + 1):
                    return True
            return False

        return go(0)

    def unescape(self, s):
        r = ev.unescape(s)
        if r.v == 0:
            return r
        vs = self.lib.facts.adts[self.lib.adt("EscapingError")]["variants"]
        n = len(r.f[0]) - 1
        k = [i for i, v in enumerate(vs) if len(v["fields"]) == n]
        if not k:
            raise ev.Opaque("escaping error")
        d = {"text": s, "character": ord(r.f[0][2]) if n == 2 else None}
        return ev.err(ev.En(k[0], tuple(d.get(f["name"]) for f in vs[k[0]]["fields"])))

    def funs(self):
        return {"unescape": self.unescape, "display": str, "step": lambda me, l: self.step(me, l)[0], "stepped": lambda me, l: self.step(me, l)[1], "unescaped": self.unescaped}

    def unescaped(self, e):
        fn = self.P.unesc
        if self.un is None:
            t = sym("§entry")
            self.un = (t, self.lib.summary(fn, args=[t], limit=30))
        t, s = self.un
        E = ev.Eval({t: e}, self.funs())
        return E(s.ret)

    def driver(self, kind):
        if kind not in self.sums:
            D = self.D[kind]
            self.sums[kind] = self.lib.summary(self.P.fn, args=[D.options], extra=D.opaque(), key="driver all", limit=90)
        return self.sums[kind]

    def __call__(self, kind, data, path="/x/in.po", width=78, isfile=None):
        """Result value; Panic when a failing operation is reached"""
        D = self.D[kind]
        s = self.driver(kind)
        fo = self.lib.facts.fields(self.lib.adt("FileOptions"))
        opt_ = {"path_or_content": None, "wrapwidth": width, "byte_content": ev.NONE}
        val = {sym("opt"): tuple(opt_.get(n) for n in fo), D.B: data}
        val[D.path] = data if kind == "text" else path if kind == "path" else ""
        f = self.funs()
        f["is_file"] = lambda p: 1 if kind == "path" and isfile is not False else 0
        f["opens"] = lambda p: 0 if data is None else 1
        f["openerr"] = lambda p: "io"
        f["file"] = lambda p: data
        E = ev.Eval(val, f, budget=4000000)
        self.events(E, s)
        return E(s.ret)

    def file(self, v):
        """the parts of a file value"""
        g = lambda ty, x: dict(zip(self.lib.facts.fields(self.lib.adt(ty)), x))
        f = g("POFile", v)
        es = []
        for e in f["entries"]:
            d = g("POEntry", e)
            es.append({k: py(d[k]) or [] if k in LISTS else bool(d[k]) if k == "obsolete" else py(d[k]) for k in ENTRY})
        return es, py(f["header"]), {k: py(x) for k, x in dict(f["metadata"]).items()}, bool(f["metadata_is_fuzzy"]), g("FileOptions", f["options"])

    def error(self, v):
        """(variant, fields by name)"""
        A = self.lib.facts.adts[self.lib.adt("SyntaxError")]["variants"]
        x = v.f[0]
        d = dict(zip([f["name"] for f in A[x.v]["fields"]], x.f))
        return A[x.v]["name"], d


def py(v):
    if isinstance(v, ev.En):
        return py(v.f[0]) if v.v == 1 else None
    if isinstance(v, list):
        return [tuple(x) if isinstance(x, tuple) else x for x in v]
    return v


def spec(lines):
    try:
        return ("ok",) + reading(lines)
    except Bad as b:
        return ("bad", b.line, b.why)
    except Unspecified:
        return ("any",)


def encode(r, lines):
    """(bytes, lines as read)"""
    nl = r.choice(("\n", "\n", "\n", "\r\n"))
    t = nl.join(lines)
    if lines and r.random() < 0.8:
        t += nl
    if r.random() < 0.1:
        t = "\ufeff" + t
    return t


def lines_of(t):
    return [x.f[0] for x in ev.FUN["iolines"](t)]


SIZES = (40, 130)


def sizes_in(ints):
    return [i for i in ints if 8 <= i <= 3000]


def stretched(r, lines, sizes):
    """the same with many lines, many continuations or a long one"""
    n = r.choice(sizes or SIZES) + r.choice((0, 1, 2))
    out = list(lines)
    k = r.random()
    at = [i for i, l in enumerate(out) if l.endswith('"') and l.count('"') == 2]
    if k < 0.4 or not at:
        i = 0
        if n > 300:
            out += [""] * (n - len(out))
        while len(out) < n:
            out += ["", 'msgid "s%d"' % i, 'msgstr "v%d"' % i]
            i += 1
        return out + ["", 'msgid "last"', 'msgstr "l"']
    i = r.choice(at)
    if k < 0.7:
        if n > 300:
            n = r.choice(SIZES)
        pre = "#~ " if out[i].startswith("#~") else "#| " if out[i].startswith("#|") else ""
        return out[: i + 1] + ['%s"c%d"' % (pre, j) for j in range(n)] + out[i + 1 :]
    out[i] = out[i][:-1] + "x" * n + '"'
    return out


def mentioned(P, focus, code=None):
    """texts and numbers the open obligations' summaries mention"""
    out = {}
    nums = {}
    t0 = time.time()
    for kind in ("bytes", "path") if code else ():
        try:
            s = code.driver(kind)
            texts, ints = decide.constants(s.ret, *[e.pc for e in s.events])
            nums.update(dict.fromkeys(sizes_in(ints)))
            for x in texts:
                x = x[1:] if len(x) == 2 and x[0] == "k" else x
                if 0 < len(x) < 30:
                    out[x] = 1
        except Exception:
            continue
    for st, name in focus[:60]:
        try:
            me, s, ctx = P.step_in(st, P.by[name])
            texts, ints = decide.constants(s.ret, s.mem("arg0"), *[e.pc for e in s.events])
            nums.update(dict.fromkeys(sizes_in(ints)))
            for x in texts:
                x = x[1:] if len(x) == 2 and x[0] == "k" else x
                if 0 < len(x) < 30:
                    out[x] = 1
        except Exception:
            continue
        if time.time() - t0 > 10:
            break
    r = Pool(out)
    r.sizes = list(nums)[:60]
    return r


class Pool(list):
    sizes = ()


def hunt(c, P, make, judge, n=None, limit=None, code=None, pool=None):
    """first (description, witness) for which judge finds a difference"""
    code = code or Code(P)
    t0 = time.time()
    n = n or (1500 if c.tier == "quick" else 10000)
    limit = limit or (60 if c.tier == "quick" else 240)
    done, why = 0, ""
    for i in range(n):
        if time.time() - t0 > limit:
            break
        r = random.Random("%d:%d" % (c.seed, i))
        r.pool = pool
        code.until = time.time() + 12
        x = make(r)
        if i % 25 == 7:
            x = stretched(r, x, getattr(pool, "sizes", ()))
        try:
            w = judge(code, r, x)
        except Panic:
            continue
        except (ev.Opaque, ev.Undef) as y:
            why = str(y)
            continue
        except (TypeError, IndexError, KeyError, AttributeError, ValueError, OverflowError, RecursionError, interp.Unsupported, TimeoutError, T.Timeout) as y:
            why = "%s: %s" % (type(y).__name__, str(y)[:200])
            if isinstance(y, (interp.Unsupported, TimeoutError, T.Timeout)):
                break
            continue
        done += 1
        if w:
            return w, done, why
    return None, done, why


# ------------------------------------------------------------------ judges


def wit(t, got, want):
    return {"input": repr(t)[:1500], "code": str(got)[:800], "specified": str(want)[:800]}


def j_stored(code, r, lines):
    s = spec(lines)
    if s[0] != "ok":
        return None
    t = encode(r, lines)
    v = code("bytes", t)
    if v.v != 0:
        return wit(t, "error", s[1])
    es = code.file(v.f[0])[0]
    if es != s[1]:
        return wit(t, es, s[1])


def j_meta(code, r, lines):
    s = spec(lines)
    if s[0] != "ok":
        return None
    t = encode(r, lines)
    v = code("bytes", t)
    if v.v != 0:
        return None
    es, h, m, fz, _ = code.file(v.f[0])
    if (h, m, fz) != s[2:]:
        return wit(t, (h, m, fz), s[2:])
    if any(e["msgid"] == "" and e["msgctxt"] is None for e in es):
        return wit(t, es, s[1])


def j_refused(code, r, lines):
    s = spec(lines)
    if s[0] != "bad" or s[2] in ("order", "escape"):
        return None
    t = encode(r, lines)
    v = code("bytes", t)
    if v.v == 0:
        return wit(t, "accepted", "line %d is malformed (%s)" % s[1:])


def j_escape(code, r, lines):
    s = spec(lines)
    if s[0] != "bad" or s[2] != "escape":
        return None
    t = encode(r, lines)
    v = code("bytes", t)
    if v.v == 0:
        return wit(t, "accepted", "line %d ends an entry with a malformed escape" % s[1])


def j_position(code, r, lines):
    s = spec(lines)
    if s[0] != "bad":
        return None
    t = encode(r, lines)
    kind = r.choice(("path", "text"))
    path = r.choice(["/x/in.po", "in.po", "./a/b.po", "../x y.po", "é.po", "a.pot", "x"] + [x for x in r.pool or () if "\0" not in x])
    v = code(kind, t, path=path)
    if v.v == 0:
        return None
    n, d = code.error(v)
    if "line" in d and s[2] != "escape" and d["line"] != s[1]:
        return wit(t, "%s, line %s" % (n, d["line"]), "line %d" % s[1])
    m = d.get("maybe_filename")
    if isinstance(m, tuple):
        names = code.lib.facts.fields(code.lib.adt("MaybeFilename"))
        m = dict(zip(names, m))
        want = (t if kind == "text" else path, kind == "path")
        if kind == "path" and (m.get("filename"), bool(m.get("filename_is_path"))) != want or bool(m.get("filename_is_path")) != want[1]:
            return wit(t, m, want)


def j_panic(code, r, lines):
    t = encode(r, lines)
    try:
        kind = r.choice(poread.KINDS)
        code(kind, t)
    except Panic as x:
        return wit(t, "panic: %s" % x, "a file or an error")


def j_lines(code, r, lines):
    """decoding failures, unopenable paths, and every line counts"""
    k = r.random()
    if k < 0.15:
        v = code("path", None)
        return wit("a path that cannot be opened", "accepted", "an error") if v.v == 0 else None
    s = spec(lines)
    if s[0] != "ok":
        return None
    if k < 0.6 and lines:
        b = [list(x.encode("utf-8")) for x in lines]
        i = r.randrange(len(b))
        j = r.randrange(len(b[i]) + 1)
        if b[i] and j < len(b[i]):
            while j > 0 and 0x80 <= b[i][j] < 0xC0:
                j -= 1
        b[i][j:j] = [0xFF]
        data = []
        for x in b:
            data += x + [10]
        v = code(r.choice(("bytes", "path")), data)
        return wit(bytes(data), "accepted", "an error: line %d is not UTF-8" % (i + 1)) if v.v == 0 else None
    t = encode(r, lines)
    v = code(r.choice(poread.KINDS), t)
    if v.v != 0:
        return wit(t, "error", "%d entries" % len(s[1]))
    es = code.file(v.f[0])[0]
    if len(es) != len(s[1]):
        return wit(t, es, s[1])


ODD = ["\r", "\x85", "\u2028", "\x0b", "\x0c", "\x00", "\ufeff", "\u00a0", "\n", "\ufffd", "\x1a"]


def j_sources(code, r, lines):
    t = encode(r, lines)
    k = r.random()
    if k < 0.3 and t:
        i = r.randrange(len(t) + 1)
        t = t[:i] + r.choice(ODD + [x for x in r.pool or () if len(x) < 4]) + t[i:]
    elif k < 0.4:
        # what only bytes can hold
        data = list(t.encode("utf-8"))
        data.insert(r.randrange(len(data) + 1), r.choice((0xFF, 0xC3, 0x80)))
        out = [v.v or code.file(v.f[0])[:4] for v in (code(k, data) for k in ("bytes", "path"))]
        return wit(bytes(data), "path: %s" % (out[1],), "bytes: %s" % (out[0],)) if out[0] != out[1] else None
    w = r.choice((0, 40, 78, 100))
    out = []
    for k in poread.KINDS:
        v = code(k, t, width=w)
        if v.v == 0:
            f = code.file(v.f[0])
            if f[4].get("wrapwidth") != w:
                return wit(t, "%s: wrap width %s" % (k, f[4].get("wrapwidth")), "wrap width %d" % w)
            if k == "bytes" and py(f[4].get("byte_content")) != t or k == "text" and f[4].get("path_or_content") != t:
                return wit(t, "%s: content %s" % (k, f[4]), "content as given")
            out.append(f[:4])
        else:
            out.append("error")
    for k, o in zip(poread.KINDS[1:], out[1:]):
        if o != out[0]:
            return wit(t, "%s: %s" % (k, o), "bytes: %s" % (out[0],))


def j_once(code, r, lines):
    """fields that are the right text under the wrong number of unescapings"""
    s = spec(lines)
    if s[0] != "ok":
        return None
    t = encode(r, lines)
    v = code("bytes", t)
    if v.v != 0:
        # a second unescaping may fail
        return wit(t, "error", s[1])
    es = code.file(v.f[0])[0]
    if len(es) != len(s[1]):
        return None
    for a, b in zip(es, s[1]):
        for k in ENTRY:
            x, y = flat(a[k]), flat(b[k])
            if x != y and strip(x) == strip(y):
                return wit(t, "%s is %r" % (k, a[k]), repr(b[k]))


def flat(v):
    if isinstance(v, (list, tuple)):
        return "\x00".join(flat(x) for x in v)
    return "" if v is None else str(v)


def strip(v):
    """without what escaping adds or removes"""
    return re.sub(r'\\|"|[\n\t\r\x08\x11\x12]|n|t|r|b|v|f', "", v)
