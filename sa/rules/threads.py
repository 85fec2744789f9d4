"""C29: no state shared between calls.

Over the whole program: auto traits of the public types, statics and
thread-locals reached from public functions, process-wide state that is read
or changed, names of files that do not come from the caller.
"""
import re

from rules.common import *  # noqa
from rules import saving

RULE = {
    "C29": "every public type is Send and Sync and no copy of it shares changeable parts; every static reached from a public function is immutable or filled once from nothing but constants; no reachable call touches the environment or working directory; every file opened for writing is named by the caller",
}

CELLS = ("cell::Cell", "cell::RefCell", "cell::UnsafeCell", "cell::OnceCell", "cell::LazyCell", "sync::Mutex", "sync::RwLock", "sync::OnceLock", "sync::LazyLock", "sync::atomic::", "sync::mpsc::", "sync::Condvar", "poison::mutex::Mutex", "poison::rwlock::RwLock")
SHARES = ("rc::Rc", "sync::Arc", "rc::Weak", "sync::Weak")
# filled on first use and fixed from then on
ONCE = ("lazy_static::lazy::Lazy", "std::sync::LazyLock", "std::sync::OnceLock", "std::cell::LazyCell", "once_cell::sync::Lazy", "once_cell::sync::OnceCell")
PROCESS = ("std::env::",)
HARMLESS = ("std::env::consts", "std::env::join_paths", "std::env::split_paths")


def mentions(o):
    """definitions a body names"""
    st = [o]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if x.get("c") in ("fn", "static", "item"):
                yield x["c"], x["def"], x
                r = (x.get("res") or {}).get("def")
                if r:
                    yield x["c"], r, x
            elif x.get("a") == "closure":
                yield "closure", x["def"], x
            elif x.get("c") == "promoted":
                pass
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def bodies(f):
    return [f["body"], f.get("promoted") or []]


class Graph(object):
    def __init__(self, facts, every=False):
        self.facts = facts
        self.uses = {}
        for i, f in facts.fns.items():
            if f.get("body"):
                self.uses[i] = list(mentions(bodies(f)))
        impls = {}
        for i, f in facts.fns.items():
            if f.get("impl_trait"):
                impls.setdefault((f["impl_trait"], f["name"]), []).append(i)
        self.via = {}
        work = []
        for i, f in facts.fns.items():
            if f.get("body") and (f.get("reachable") or every and not f.get("expanded") and not f.get("static")) or self.dropped(f):
                self.via[i] = None
                work.append(i)
        while work:
            i = work.pop()
            for kind, d, x in self.uses.get(i, ()):
                out = [d]
                if x.get("trait"):
                    out += impls.get((x["trait"], x.get("method")), [])
                # a static is reached through its Deref implementation
                if kind == "static":
                    out += [j for j, g in facts.fns.items() if g.get("impl_self") is not None and norm(facts.ts(g["impl_self"])) == d]
                for j in out:
                    if j in facts.fns and j not in self.via:
                        self.via[j] = i
                        work.append(j)

    def dropped(self, f):
        return f.get("impl_trait") in ("std::ops::Drop",)

    def path(self, i):
        out = []
        while i is not None:
            out.append(i)
            i = self.via.get(i)
        return " <- ".join(out)


def c29(c):
    L = c.lib
    c.part("types", types, c, L)
    G = Graph(L.facts)
    c.part("statics", statics, c, L, G, False)
    c.part("thread locals", locals_, c, L, G)
    c.part("process state", process, c, L, G)
    c.part("names of files", names, c)
    py = Lib(c.py)
    c.more_fns = py.fns_seen
    P = Graph(py.facts, True)
    c.part("statics of the Python crate", statics, c, py, P, True)
    c.part("thread locals of the Python crate", locals_, c, py, P)
    c.part("process state of the Python crate", process, c, py, P)


def types(c, L):
    for p, a in sorted(L.facts.adts.items()):
        if not a["local"] or not a.get("reachable"):
            continue
        n = last(p)
        if not a.get("generic"):
            for tr, what in (("send", "sent to"), ("sync", "shared between")):
                ok_ = a.get(tr, True)
                bad = "" if ok_ else culprit(L, p, tr)
                c.record("%s can be %s threads" % (n, what), None, "proved" if ok_ else "violated", bad or "", None if ok_ else {"type": p, "because of": bad}, lib=L)
        bad = sharing(L, p, set())
        c.record("copies of %s share nothing that changes" % n, None, "violated" if bad else "proved", bad or "", {"type": p, "part": bad} if bad else None, lib=L)


def culprit(L, p, tr):
    out = []
    for v in L.facts.adts[p]["variants"]:
        for f in v["fields"]:
            s = norm(L.facts.ts(f["ty"])) if f["ty"] is not None else ""
            bad = ("Rc<", "*mut", "*const", "dyn ", "MutexGuard", "Cell")
            if any(b in s for b in bad):
                out.append("%s: %s" % (f["name"], s))
    return ", ".join(out) or p


def sharing(L, p, seen):
    if p in seen:
        return None
    seen.add(p)
    for v in L.facts.adts[p]["variants"]:
        for f in v["fields"]:
            if f["ty"] is None:
                continue
            s = norm(L.facts.ts(f["ty"]))
            for w in SHARES:
                for m in re.finditer(re.escape(w) + "<", s):
                    inner = s[m.end():]
                    if any(x in inner for x in CELLS):
                        return "%s.%s: %s" % (p, f["name"], s)
            for q, a in L.facts.adts.items():
                if a["local"] and q in s:
                    r = sharing(L, q, seen)
                    if r:
                        return r
    return None


def statics(c, L, G, python):
    n = 0
    for i, f in sorted(L.facts.fns.items()):
        s = f.get("static")
        if not s or python and f.get("expanded"):
            continue
        t = norm(L.facts.ts(s["ty"]))
        if i not in G.via:
            continue
        users = sorted(j for j in G.via if any(d == i for _, d, _ in G.uses.get(j, ())))
        if not users:
            continue
        n += 1
        name = "static %s" % i.split("::")[-1] if not i.endswith("LAZY") else "static %s" % i.split(" as ")[0].strip("<")
        where_ = "%s, used by %s" % (t, G.path(users[0]))
        if s["mut"]:
            verdict(c, L, name, i, where_, "static mut")
        elif s["thread_local"]:
            verdict(c, L, name, i, where_, "thread-local")
        elif s["freeze"]:
            c.record(name + " never changes", i, "proved", t, lib=L)
        else:
            w = next((o for o in ONCE if t.startswith(o + "<")), None)
            if w is None:
                if t == "std::sync::Once":
                    c.record(name + " never changes", i, "undecided", t, lib=L)
                else:
                    verdict(c, L, name, i, where_, "changeable through shared references")
                continue
            inner = t[len(w) + 1:]
            if any(x in inner for x in CELLS):
                verdict(c, L, name, i, where_, "holds changeable parts")
                continue
            r = filled(L, G, users)
            if r:
                verdict(c, L, name, i, where_, r)
            else:
                c.record(name + " is filled once from constants", i, "proved", t, lib=L)
    if not n:
        c.record("no statics are used", None, "proved", lib=L)


def verdict(c, L, name, i, where_, why):
    c.record(name + " never changes", i, "violated", "%s: %s" % (why, where_), {"static": i, "what": why, "path": where_}, lib=L)


def filled(L, G, users):
    """why the content depends on who comes first"""
    for u in users:
        for b in walk(L.facts.fns[u]["body"]):
            if b.get("t") != "call":
                continue
            k = b["f"].get("k", {})
            d = (k.get("def") or "")
            n = d.split("::")[-1]
            if not any(o.split("::")[-1] in d for o in ONCE):
                continue
            if n in ("set", "try_insert", "take", "get_mut"):
                return "%s called in %s" % (n, u)
            if n in ("get_or_init", "get_or_try_init") and len(b.get("atys") or ()) > 1:
                t = L.facts.types[b["atys"][1]]
                if t["k"] == "closure":
                    for x in walkall(L.facts.fns[u]["body"]):
                        if x.get("r") == "agg" and isinstance(x.get("k"), dict) and x["k"].get("a") == "closure" and x["k"].get("def") == t["def"] and x.get("ops"):
                            return "its first user decides its content in %s" % u
    return None


def walk(body):
    for b in body["blocks"]:
        if b.get("t"):
            yield b["t"]


def walkall(o):
    st = [o]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def locals_(c, L, G):
    n = 0
    for i in sorted(G.via):
        f = L.facts.fns[i]
        if f.get("expanded") and L is not c.lib:
            continue
        for t in f["body"]["locals"] if f.get("body") else ():
            s = norm(L.facts.ts(t))
            m = re.search(r"std::thread::LocalKey<(.*)>", s)
            if m:
                n += 1
                inner = m.group(1)
                if any(x in inner for x in CELLS) and not i.split("::")[-1].startswith("__"):
                    c.record("%s keeps nothing per thread" % i, i, "violated", "%s, reached by %s" % (s, G.path(i)), {"thread-local": s, "path": G.path(i)}, lib=L)
                    break
    if not n:
        c.record("no thread-local state is used", None, "proved", "%d functions" % len(G.via), lib=L)


def process(c, L, G):
    n = k = 0
    for i in sorted(G.via):
        for kind, d, x in G.uses.get(i, ()):
            if kind != "fn":
                continue
            k += 1
            if d.startswith(PROCESS) and not d.startswith(HARMLESS):
                n += 1
                c.record("%s leaves the process alone" % i, i, "violated", "calls %s, reached by %s" % (d, G.path(i)), {"call": d, "path": G.path(i)}, lib=L)
    if not n:
        c.record("nothing reads or changes the environment or working directory", None, "proved", "%d calls in %d functions" % (k, len(G.via)), lib=L)


def names(c):
    for ty, name, kind, fn, env in saving.saves(c):
        c.part("%s::%s" % (ty, name), one_name, c, ty, name, fn, env)


def one_name(c, ty, name, fn, env):
    f, path = sym("file"), sym("path")
    s = c.lib.summary(fn, args=[f, path], tyenv=env, key=ty)
    evs = [e for e in s.events if e.pc is not F and e.kind in ("create", "openw")]
    what = "%s::%s writes to files named by the caller" % (ty, name)
    for e in evs:
        ns = list(T.subterms(e.data[0]))
        if path in ns or f in ns:
            continue
        if all(x.k in ("seq", "int") for x in ns):
            c.record(what, fn, "violated", "writes %s" % e.data[0], {"name": str(e.data[0])}, lib=c.lib)
            return
        c.record(what, fn, "undecided", "name not understood")
        return
    c.record(what, fn, "proved" if evs or s.I.unknown == {} else "undecided", "%d files" % len(evs))
