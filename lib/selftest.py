"""Is the specification able to say no?  (Not a registered check.)

selftest.py model   plants each design mistake in spec/MC.tla (VBUG) and expects TLC
                    to find a behaviour that violates the property's clauses.
selftest.py trace   records real sessions, corrupts one recorded fact at a time, and
                    expects a verdict of spec/Trace.tla that names the right clause.
"""
import copy
import os
import random
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver  # noqa: E402

MODEL = [("C01", "nonelem"), ("C02", "price"), ("C03", "price"), ("C04", "price"), ("C05", "price"),
         ("C06", "price"), ("C07", "price"), ("C08", "price"), ("C09", "fleet"), ("C10", "penalty"),
         ("C11", "sched"), ("C12", "lock"), ("C13", "penalty"), ("C14", "report"), ("C15", "worst"),
         ("C16", "early"), ("C17", "input"), ("C17", "leak"), ("C18", "accept"), ("C19", "raise"),
         ("C20", "price"), ("C20", "raise"), ("C21", "late"), ("C21", "iters"), ("C22", "price"),
         ("C22", "cost"), ("C23", "worst")]


def model(work):
    missed = 0
    for prop, bug in MODEL:
        rc, log = driver.tlc("MC.tla", "MC.cfg", work, dict(VPROP=prop, VBUG=bug, VTIER="quick"), [], 300, workers=2)
        found = "Invariant Holds is violated" in log
        missed += not found
        print("model %s %-8s %s" % (prop, bug, "found" if found else "MISSED (rc %s)" % rc), flush=True)
    return missed


# ---- corruptions of a recorded call: each returns the clauses one of which must be named, or None ----
def ret(step):
    e = step["events"][-1] if step["events"] else {}
    return e["out"] if e.get("e") == "return" else None


def lose_customer(s, rng):
    o = ret(s)
    if not o or s["P"]["drop"] or s["P"]["per"]:
        return None
    r = rng.choice(o["routes"])
    if len(r["nodes"]) > 3:
        del r["nodes"][1]
        return {"cover"}
    o["routes"].remove(r)
    return {"cover"}


def twice(s, rng):
    o = ret(s)
    if not o or s["P"]["per"]:
        return None
    o["routes"].append(copy.deepcopy(rng.choice(o["routes"])) if o["routes"] else None)
    return {"cover", "drop"} if o["routes"][-1] else None


def reverse(s, rng):
    o = ret(s)
    if not o or not s["P"]["pd"] or not o["routes"]:
        return None
    r = rng.choice(o["routes"])
    r["nodes"] = r["nodes"][:1] + r["nodes"][-2:0:-1] + r["nodes"][-1:]
    return {"pd", "path"}


def cost(s, rng):
    o = ret(s)
    if not o or not o["routes"] or s["A"]["heur"]:
        return None
    rng.choice(o["routes"])["cost"] += 100
    return {"cost"}


def value(s, rng):
    o = ret(s)
    if not o:
        return None
    o["value"] += 100
    return {"value", "dropval", "spanval"}


def report(what, clause):
    def f(s, rng):
        o = ret(s)
        rs = [r for r in o["routes"] if r[what] not in (driver.NONE, [])] if o else []
        if not rs:
            return None
        r = rng.choice(rs)
        if isinstance(r[what], list):
            r[what][rng.randrange(1, len(r[what]) - 1)] += 100
        else:
            r[what] += 100
        return {clause}
    return f


def kind(s, rng):
    o = ret(s)
    if not o or not o["routes"]:
        return None
    rng.choice(o["routes"])["type"] = s["I"]["K"] + 1
    return {"type"}


def overload(s, rng):
    o = ret(s)
    if not o or not s["P"]["cap"] or s["P"]["pd"] or s["P"]["per"]:
        return None
    most = max((sum(s["I"]["dem"][v - 1] for v in r["nodes"][1:-1]) for r in o["routes"]), default=0)
    if most < 2 or most - 1 < max(s["I"]["dem"]):
        return None
    s["P"]["cap"] = [most - 1] * len(s["P"]["cap"])
    return {"cap", "exc"}


def fewer(what, clause, f):
    def g(s, rng):
        o = ret(s)
        if not o or not s["P"][what]:
            return None
        x = max((f(s["I"], r["nodes"]) for r in o["routes"]), default=0)
        if x <= 1:
            return None
        s["P"][what] = x - 1
        return {clause, "exc"}  # (unless it makes a customer unservable)
    return g


def duration(I, nodes):
    return (sum(I["time"][i][j] for i, j in zip(nodes, nodes[1:]))
            + sum(I["svc"][v - 1] for v in nodes[1:-1]))


def window(s, rng):
    o = ret(s)
    rs = [r for r in o["routes"] if r["arr"]] if o and s["P"]["tw"] else []
    if not rs:
        return None
    r = rng.choice(rs)
    v = rng.choice(r["nodes"][1:-1])
    a = r["arr"][r["nodes"].index(v)]
    if a <= s["I"]["lo"][v - 1]:
        return None
    s["I"]["up"][v - 1] = a - 1
    return {"tw", "exc"}


def fleet(s, rng):
    o = ret(s)
    if not o or not s["P"]["nv"] or s["P"]["per"] or s["A"]["heur"] or not o["routes"]:
        return None
    k = o["routes"][0]["type"]
    s["P"]["nv"][k - 1] = sum(r["type"] == k for r in o["routes"]) - 1
    return {"fleet", "useall"}


def day(s, rng):
    o = ret(s)
    if not o or not o["sched"]:
        return None
    d = rng.choice(o["sched"])
    if not d["routes"]:
        return None
    d["routes"].pop()
    return {"sched"}


def lock(s, rng):
    o = ret(s)
    p = [r for r in s["A"]["pre"] if len(r) > 3]
    if not o or not p:
        return None
    r = rng.choice(p)
    i = rng.randrange(len(r) - 1)
    if 0 in r[i:i + 2] or s["I"]["n"] + 1 in r[i:i + 2]:
        return None
    r[i], r[i + 1] = r[i + 1], r[i]
    return {"lockfull", "lockpart"}


def below(s, rng):
    o = ret(s)
    if not o or s["I"]["n"] > 4 or s["P"]["per"] or s["A"]["heur"] or s["P"]["span"] or s["P"]["drop"] or o["value"] < 1000:
        return None
    for k in range(s["I"]["K"]):
        for row in s["I"]["cost"][k]:
            for j in range(len(row)):
                row[j] += 100 if row[j] < 10 ** 8 else 0
    return {"geopt"}


def column(f, clauses):
    def g(s, rng):
        cs = [e for e in s["events"] if e["e"] == "column" and e["col"]["elem"]]
        if not cs or s["A"]["pre"]:
            return None
        return clauses if f(s, rng.choice(cs)["col"]) else None
    return g


def col_cost(s, c):
    c["cost"] += 100
    return True


def col_path(s, c):
    c["nodes"] = c["nodes"][1:]
    return True


def refuse(s, rng):
    if not ret(s) or s["P"]["nv"] or s["A"]["defect"] != "none":
        return None
    s["events"][-1] = dict(e="raise", clk=-1, crash=False, msg="corrupted", after=s["events"][-1]["after"])
    return {"noexc"}


def accept(s, rng):
    e = s["events"][-1] if s["events"] else {}
    if e.get("e") != "raise" or s["A"]["defect"] == "none":
        return None
    s["events"][-1] = dict(e="return", clk=-1, out=dict(kind="ok", value=0, routes=[], sched=[]), after=e["after"])
    return {"exc"}


def graph(s, rng):
    e = s["events"][-1] if s["events"] else {}
    if "after" not in e or not e["after"]["checked"]:
        return None
    e["after"]["graph"]["dem"][0] += 1
    return {"input"}


def late(s, rng):
    m = [i for i, e in enumerate(s["events"]) if e["e"] == "master"]
    if not m or not s["A"]["maxiter"] or s["A"]["dive"]:
        return None
    n = 2 * s["A"]["maxiter"]
    s["events"][m[0]:m[0]] = [copy.deepcopy(s["events"][m[0]]) for _ in range(n)]
    return {"iters"}


def duals(s, rng):
    m = [e for e in s["events"] if e["e"] == "master"]
    if not m or s["I"]["n"] > 5 or s["A"]["maxiter"] or s["A"]["tlimit"] or not m[-1]["d"]["ok"]:
        return None
    m[-1]["d"]["v"] = [x + 300000 for x in m[-1]["d"]["v"]]
    return {"dual"}


TRACE = [("C01", lose_customer), ("C01", twice), ("C02", overload), ("C03", fewer("stops", "stops", lambda I, r: len(r) - 2)),
         ("C04", fewer("dur", "dur", duration)), ("C05", window), ("C06", reverse), ("C07", overload), ("C08", kind),
         ("C09", fleet), ("C10", value), ("C10", twice), ("C11", day), ("C12", lock), ("C13", cost), ("C13", value),
         ("C14", report("load", "load")), ("C14", report("nload", "nodeload")), ("C14", report("dur", "durrep")),
         ("C14", report("arr", "arr")), ("C14", report("dep", "dep")), ("C15", below), ("C16", duals), ("C17", graph),
         ("C18", accept), ("C19", refuse), ("C20", lose_customer), ("C20", value), ("C21", late), ("C21", lose_customer),
         ("C22", column(col_cost, {"colcost", "colonce"})), ("C22", column(col_path, {"colpath"})), ("C23", value)]


def trace(work, num=60, seed=7):
    rng = random.Random(seed)
    missed, cache = 0, {}
    names = {v: k for k, v in globals().items() if callable(v)}
    for prop, f in TRACE:
        if prop not in cache:
            cache.clear()
            scns = driver.generate(prop, num, seed, work)
            traces, _ = driver.replay(scns, work, 60, 1e18)
            cache[prop] = [traces[i] for i in sorted(traces)]
        bad, want = [], {}
        for t in cache[prop]:
            t = copy.deepcopy(t)
            for st, s in enumerate(t["steps"], 1):
                w = f(s, rng)
                if w:
                    want[t["id"]] = (st, w)
                    bad.append(t)
                    break
        verdict, _ = driver.validate(bad, work, 600)
        hit = sum(any(st == want[i][0] and c in want[i][1] for st, c, _ in verdict[i]) for i in want)
        missed += hit < len(want) or not want
        print("trace %s %-14s %d corrupted, %d named" % (prop, names.get(f, sorted(want.values(), key=str)[0][1] if want else "?"),
                                                        len(want), hit), flush=True)
    return missed


def main():
    work = tempfile.mkdtemp(prefix="vrpy-verif-")
    try:
        return {"model": model, "trace": trace}[sys.argv[1]](work)
    finally:
        import shutil
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(1 if main() else 0)
