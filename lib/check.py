"""check.py PROPERTY: decides one property (see DESIGN.md).

Exit 0: held on everything explored.  Exit 1 and a line
"VIOLATION property=<id> replay=<path>": broken.  Exit 2: the machinery failed.
"""
import json
import os
import re
import shutil
import sys
import tempfile
import threading
import time
from collections import Counter

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import directed  # noqa: E402
import driver  # noqa: E402
from driver import VERIF, MachineryError  # noqa: E402

# sessions generated per run (quick, thorough)
NUM = dict(default=(300, 3000), C07=(450, 4000), C06=(260, 2000), C09=(260, 3000), C17=(130, 1200), C23=(200, 1500),
           C20=(600, 6000), C12=(450, 4500), C18=(1800, 9000), C11=(450, 4000), C21=(300, 3000))
SAFE_ONLY = {"C09", "C10", "C18"}  # liveness is too expensive for the quick tier


def scopes():
    """the clauses that decide each property, from Profiles.tla"""
    text = open(os.path.join(driver.SPEC, "Profiles.tla")).read()
    sets = {}

    def value(expr):
        names = set(re.findall(r'"(\w+)"', expr))
        for w in re.findall(r"\b([A-Z]\w+Clauses)\b", re.sub(r'"[^"]*"', "", expr)):
            names |= sets[w]
        return names

    for m in re.finditer(r"^(\w+Clauses) == (.*?)(?=^\w|^$)", text, re.S | re.M):
        sets[m.group(1)] = value(m.group(2))
    body = text[text.index("Scope(p) =="):]
    return {m.group(1): value(m.group(2))
            for m in re.finditer(r'p = "(C\d+)" -> (.*?)(?=\[\] p =|={4})', body, re.S)}


def findings():
    out = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\w+) clause=(\w+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


class Model(threading.Thread):
    """TLC on the design model, while the real code runs"""

    def __init__(self, prop, tier, work):
        super().__init__(daemon=True)
        self.prop, self.tier, self.work, self.out = prop, tier, work, None

    def run(self):
        try:
            live = self.prop not in SAFE_ONLY if self.tier == "quick" else False
            self.cfg = "MCLive.cfg" if live else "MC.cfg"
            rc, log = driver.tlc("MC.tla", self.cfg, self.work,
                                 dict(VPROP=self.prop, VBUG="none", VTIER=self.tier), [],
                                 300 if self.tier == "quick" else 3600, workers=2 if self.tier == "quick" else 8)
            self.out = rc, log
        except Exception as ex:  # pragma: no cover
            self.out = -1, repr(ex)

    def result(self):
        self.join()
        rc, log = self.out
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", log)
        if rc != 0 or not m:
            raise MachineryError("the design model fails:\n" + log[-3000:])
        return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))


def features(scn):
    f = set()
    for s in scn["steps"]:
        P, A = s["P"], s["A"]
        f |= {x for x in ("tw", "pd", "dc", "mixed", "all", "span", "stops", "dur", "drop", "per", "cap", "nv") if P[x]}
        f |= {x for x in ("heur", "dive", "greedy", "elem", "maxiter", "tlimit", "init", "pre") if A[x]}
        if any(P["fixed"]):
            f.add("fixed")
        if A["defect"] != "none":
            f.add("defect")
        f.add("cspy" if A["cspy"] else "lp")
        f.add(A["strat"])
    return f


def run(prop, tier, seed):
    t0 = time.time()
    scope = scopes()[prop]
    work = tempfile.mkdtemp(prefix="vrpy-verif-")
    try:
        model = Model(prop, tier, work)
        model.start()
        num = NUM.get(prop, NUM["default"])[0 if tier == "quick" else 1]
        limit, again, total = (60, 150, 420) if tier == "quick" else (120, 300, 6000)
        scns = driver.generate(prop, num, seed, work)
        by_id = {s["id"]: s for s in scns}
        bad, known, done, tstates = [], Counter(), 0, 0
        events, feats, outcomes, lost_ids = Counter(), Counter(), Counter(), []
        sample = None
        size = 300 if tier == "quick" else 600
        deadline = t0 + total
        suspects = []

        def explore(batch):
            nonlocal done, tstates, sample
            traces, gone = driver.replay(batch, work, limit, deadline)
            allt = [traces[i] for i in sorted(traces)]
            if gone and "noexc" in scope:
                # alone, with more time: the machine may be busy
                redo, still = driver.replay([g[0] for g in gone], work, again, time.time() + again, procs=2,
                                            max_lost=1)
                allt += list(redo.values())
                for g in still:
                    allt.append(driver.lost(*g))
                    lost_ids.append(g[0]["id"])
            verdict, states = driver.validate(allt, work, 600)
            tstates += states
            done += len(allt)
            for t in allt:
                feats.update(features(by_id[t["id"]]))
                for s in t["steps"]:
                    for e in s["events"]:
                        events[e["e"]] += 1
                        if e["e"] in ("return", "raise", "hang"):
                            outcomes[e["e"]] += 1
                    if sample is None and s["events"] and s["events"][-1]["e"] == "return":
                        sample = t
                for st, clause, ev in sorted(verdict[t["id"]]):
                    if any(f[1] == clause for f in findings()):
                        if clause in scope:
                            known[clause] += 1
                    elif clause not in scope or (prop == "C17" and st < 2 and clause != "input"):
                        suspects.append((by_id[t["id"]], st, clause, t["steps"][st - 1]["events"][ev - 1]))
                    else:
                        bad.append((t, st, clause))

        for k in range(0, len(scns), size):
            explore(scns[k:k + size])
            if bad or time.time() > deadline:
                break
        # Something else is wrong: look for a violation of this property nearby
        nsus, deadline = len(suspects), max(deadline, time.time() + 120)
        for rnd in range(4):
            if bad or not suspects or time.time() > deadline:
                break
            found, suspects[:] = suspects[:], []
            more = directed.sessions(found, seed + rnd)
            by_id.update({s["id"]: s for s in more})
            scns += more
            explore(more)
            if rnd == 0 and not bad:
                more = driver.generate(prop, num, seed + 1000, work)
                by_id.update({s["id"]: s for s in more})
                scns += more
                explore(more)
                suspects += found
        transitions, mstates = model.result()
        ev = dict(
            property=prop, tier=tier, seed=seed, level="model_checking",
            coverage=dict(
                states=mstates, transitions=transitions,
                model="spec/MC.tla with %s, Prop=%s: exhaustive over its instances" % (model.cfg, prop),
                traces_validated_against_impl=done, trace_states=tstates,
                evaluations=len(scns), distinct_nontrivial=len({json.dumps(s["steps"], sort_keys=True) for s in scns}),
                rule="sessions generated by TLC from spec/Gen.tla with the profile of the property; "
                     "each makes at least one call of solve() on a random instance; distinct by content",
                recorded_events=dict(events), outcomes=dict(outcomes), features=dict(feats),
                clauses=sorted(scope), known_findings=dict(known), suspicious_events=nsus, sessions_without_answer=lost_ids,
                samples=[dict(id=sample["id"], steps=[dict(I=s["I"], P=s["P"], A=s["A"], events=s["events"][-2:])
                                                       for s in sample["steps"]])] if sample else []),
            assumptions=["TLC, CBC, cspy and networkx behave as installed here",
                         "instances are as large as spec/Gen.tla makes them (mostly up to 6 customers)"],
            wall_s=round(time.time() - t0, 1), violations=len(bad))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for p, c, what in findings():
            if p == prop and known[c]:
                print("KNOWN-FINDING: property=%s %s" % (prop, what))
        print("%s: %d model states, %d sessions, %d events checked, %.0f s" % (
            prop, mstates, done, sum(events.values()), time.time() - t0))
        if not bad:
            return 0
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        t, st, clause = bad[0]
        path = os.path.join(d, "%s.json" % t["id"])
        with open(path, "w") as f:
            json.dump(dict(property=prop, step=st, clause=clause, scenario=by_id[t["id"]], trace=t), f)
        for t, st, c in bad[:10]:
            print("  %s violated by session %s, call %d" % (c, t["id"], st))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


def rerun(path):
    """runs the session of a replay file again and prints the verdict"""
    d = json.load(open(path))
    work = tempfile.mkdtemp(prefix="vrpy-verif-")
    try:
        traces, gone = driver.replay([d["scenario"]], work, 300, time.time() + 300)
        allt = list(traces.values()) + [driver.lost(*g) for g in gone]
        verdict, _ = driver.validate(allt, work)
        print("recorded: call %d violates %s" % (d["step"], d["clause"]))
        print("now:", verdict[d["scenario"]["id"]])
        return 1 if (d["step"], d["clause"]) in [tuple(x[:2]) for x in verdict[d["scenario"]["id"]]] else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(rerun(sys.argv[2]))
    try:
        rc = run(sys.argv[1], os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1") or 1))
    except MachineryError as ex:
        print("MACHINERY:", ex)
        rc = 2
    sys.exit(rc)
