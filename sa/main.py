"""Decide one property: main.py <property> <rspolib.json> <py-rspolib.json>"""
import importlib
import json
import os
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(400000)
threading.stack_size(1 << 29)

RULES = {
    "C01": "escaping", "C02": "escaping",
    "C04": "moread", "C05": "moread", "C16": "moread", "C17": "moread",
    "C07": "saving", "C09": "powrite", "C10": "powrite", "C25": "wrapping", "C26": "powrite", "C33": "powrite",
    "C03": "poread", "C06": "poread", "C08": "poread", "C11": "poread", "C12": "poread", "C13": "poread", "C27": "poread", "C28": "poread",
    "C14": "mowrite", "C15": "mowrite",
    "C23": "python", "C24": "python",
    "C29": "threads",
    "C34": "nopanic",
    "C18": "queries", "C19": "queries", "C20": "queries", "C21": "queries", "C22": "queries",
}


def findings():
    out = []
    for l in open(os.path.join(ROOT, "known-findings.txt")):
        l = l.strip()
        if not l.startswith("finding:"):
            continue
        d = {}
        head, _, d["what"] = l[len("finding:"):].partition(" -- ")
        for w in head.split():
            k, _, v = w.partition("=")
            d[k] = v
        out.append(d)
    return out


# seconds after which what is not decided is left undecided
PATIENCE = 700


def decide_one(pid, rs, py, out, job):
    import lib

    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    L = lib.Lib(rs)
    P = py
    c = lib.Check(pid, L, P, seed, tier)
    c.findings = findings()
    m = importlib.import_module("rules." + RULES[pid])
    job.append((c, m))
    # analysis failures leave obligations undecided
    c.part("rule", getattr(m, pid.lower()), c)
    if not c.obl:
        c.record("rule", None, "undecided", "no obligation")
    out.append(report(c, m))


def report(c, m):
    pid, tier, seed, L, t0 = c.pid, c.tier, c.seed, c.lib, T0
    n = {}
    for o in c.obl:
        n[o["verdict"]] = n.get(o["verdict"], 0) + 1
    doc = (m.RULE.get(pid) if hasattr(m, "RULE") else None) or m.__doc__
    evd = os.path.join(ROOT, "evidence")
    os.makedirs(evd, exist_ok=True)
    vio = []
    for i, o in enumerate(c.violations):
        p = os.path.join(evd, "%s-violation-%d.json" % (pid, i + 1))
        with open(p, "w") as f:
            json.dump(o, f, indent=1, ensure_ascii=False)
        vio.append({"what": o["obligation"], "function": o["function"], "at": o["at"], "replay": p})
        print("%s: %s at %s: %s" % (o["obligation"], o["function"], o["at"], o.get("detail", "")))
        print("VIOLATION property=%s replay=%s" % (pid, p))
    for k in c.known_hits:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    undec = [o for o in c.obl if o["verdict"] == "undecided"]
    for o in undec:
        print("undecided: %s (%s)" % (o["obligation"], o.get("detail", "")))
    rec = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": (doc or "").strip(),
            "obligations": len(c.obl),
            "discharged": n.get("proved", 0),
            "violated": n.get("violated", 0),
            "known_findings": n.get("known", 0),
            "undecided": len(undec),
            "functions_analysed": sorted(L.fns_seen | getattr(c, "more_fns", set())),
            "detail": c.obl,
        },
        "assumptions": getattr(m, "ASSUME", []) + [
            "library calls behave as described by the models in sa/models.py",
            "panic unwinding and memory exhaustion are outside the value summaries",
        ],
        "wall_s": round(time.time() - t0, 3),
        "violations": vio,
    }
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(rec, f, indent=1, ensure_ascii=False)
    print("%s: %d obligations, %d discharged, %d known, %d undecided, %d violated" % (
        pid, len(c.obl), n.get("proved", 0), n.get("known", 0), len(undec), n.get("violated", 0)))
    return 1 if vio else 0


T0 = time.time()


def main():
    pid, rs, py = sys.argv[1:4]
    out = []
    job = []

    def run():
        try:
            decide_one(pid, rs, py, out, job)
        except BaseException:
            import traceback

            traceback.print_exc()

    th = threading.Thread(target=run, daemon=True)
    th.start()
    th.join(PATIENCE)
    if not out and job and th.is_alive():
        c, m = job[0]
        c.record("rule", None, "undecided", "time")
        out.append(report(c, m))
    sys.stdout.flush()
    os._exit(out[0] if out else 3)


main()
