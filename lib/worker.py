"""Runs sessions generated by spec/Gen.tla on the real library (from /repo) and
records what happens as events of spec/Trace.tla.

Protocol: one scenario (JSON) per line on stdin; on the original stdout, a line
{"step": i} before each call, then the trace.
"""
import json
import os
import sys

REPO = os.environ.get("VREPO", "/repo")
os.environ["VRPY_TRACE"] = "1"
OUT = os.fdopen(os.dup(1), "w")
_null = os.open(os.devnull, os.O_WRONLY)
os.dup2(_null, 1)  # the solvers write on stdout
if not os.environ.get("VDEBUG"):
    os.dup2(_null, 2)

import random  # noqa: E402
import time  # noqa: E402


class Clock:
    """A clock that advances by one second each time it is read, when on."""

    on = False
    ticks = 0
    real = {name: getattr(time, name) for name in ("time", "perf_counter")}

    @classmethod
    def install(cls):
        for name in cls.real:
            setattr(time, name, cls.reader(name))

    @classmethod
    def reader(cls, name):
        def read():
            if not cls.on:
                return cls.real[name]()
            cls.ticks += 1
            return 1000000.0 + cls.ticks

        return read


Clock.install()

import logging  # noqa: E402

sys.path.insert(0, REPO)
import networkx as nx  # noqa: E402
import pulp  # noqa: E402
import vrpy  # noqa: E402
from vrpy import VehicleRoutingProblem  # noqa: E402

logging.disable(logging.CRITICAL)
assert os.path.dirname(os.path.dirname(os.path.abspath(vrpy.__file__))) == os.path.abspath(REPO), vrpy.__file__

# errors that are never a deliberate refusal of a valid problem
CRASH = (AttributeError, LookupError, TypeError, ArithmeticError, NameError, AssertionError, OSError,
         MemoryError, pulp.PulpError)
NONE = -999999999
BIG = 100000000
LIM = 2000000000


def enc(x):
    """hundredths; costs of 1e10 (added by the library) are scaled down"""
    try:
        x = float(x)
        if x != x or abs(x) == float("inf"):
            return NONE
        if abs(x) >= 1e9:
            m = round(x / 1e10)
            v = BIG * m + round(100 * (x - 1e10 * m))
        else:
            v = round(100 * x)
        return int(v) if abs(v) < LIM else NONE
    except Exception:
        return NONE


def whole(x):
    try:
        if isinstance(x, float) and x != round(x):
            return NONE
        x = int(round(x))
        return x if abs(x) < LIM else NONE
    except Exception:
        return NONE


def num(x):
    """hundredths to a Python number"""
    return x // 100 if x % 100 == 0 else x / 100


def part(x, d):
    """x in units of 1/d"""
    return x // d if x % d == 0 else x / d


class Session:
    def __init__(self, scn):
        self.scn = scn
        self.I = None
        self.G = None
        self.prob = None
        self.rng = random.Random(scn["seed"])
        n = scn["steps"][0]["I"]["n"]
        lab = scn["lab"]
        if lab == "int":
            names = list(range(1, n + 1))
        elif lab == "off":
            names = [10 * v + 3 for v in range(1, n + 1)]
            self.rng.shuffle(names)
        elif lab == "zero":
            names = list(range(n))
        elif lab == "str":
            names = ["c%d" % v for v in range(1, n + 1)]
        elif lab == "space":
            names = ["stop %d" % v for v in range(1, n + 1)]
        elif lab == "hyphen":
            names = ["A-%d/%d" % (v % 3, v) for v in range(1, n + 1)]
        else:
            names = [v if v % 2 else "n%d" % v for v in range(1, n + 1)]
        self.name = {0: "Source", n + 1: "Sink"}
        self.name.update({v: names[v - 1] for v in range(1, n + 1)})
        self.index = {x: v for v, x in self.name.items()}

    # ---- the user's graph ----
    def node_attrs(self, I, v):
        a = dict(demand=part(I["dem"][v - 1], I["du"]), collect=part(I["col"][v - 1], I["du"]),
                 service_time=num(I["svc"][v - 1]),
                 lower=num(I["lo"][v - 1]), upper=num(I["up"][v - 1]), frequency=I["freq"][v - 1])
        if I["req"][v - 1]:
            a["request"] = self.name[I["req"][v - 1]]
        return a

    def arc_attrs(self, I, i, j):
        c = [num(I["cost"][k][i][j]) for k in range(I["K"])]
        return dict(cost=c if I["K"] > 1 or self.as_list else c[0], time=num(I["time"][i][j]))

    def build(self, I):
        n = I["n"]
        G = nx.DiGraph()
        self.as_list = False
        order = list(range(n + 2))
        self.rng.shuffle(order)
        lean = self.rng.random() < 0.3  # leave out what is zero or one
        if self.rng.random() < 0.7:
            for v in order:
                G.add_node(self.name[v])
        arcs = [(i, j) for i in range(n + 2) for j in range(n + 2)
                if I["has"][i][j] and not (I["cost"][0][i][j] == BIG)]
        if self.rng.random() < 0.5:
            self.rng.shuffle(arcs)
        for i, j in arcs:
            a = self.arc_attrs(I, i, j)
            if lean and a["time"] == 0:
                del a["time"]
            G.add_edge(self.name[i], self.name[j], **a)
        for v in range(n + 2):
            G.add_node(self.name[v])
        for v in range(1, n + 1):
            a = self.node_attrs(I, v)
            if lean:
                a = {x: y for x, y in a.items() if y != (1 if x == "frequency" else 0)}
            G.nodes[self.name[v]].update(a)
        if I["depdem"]:
            G.nodes["Source"]["demand"] = G.nodes["Sink"]["demand"] = I["depdem"]
        if I["srcLo"] or not lean:
            G.nodes["Source"]["lower"] = num(I["srcLo"])
        if I["sinkUp"] or not lean:
            G.nodes["Sink"]["upper"] = num(I["sinkUp"])
        return G

    def modify(self, I):
        """the user changes the data of the graph in place"""
        for v in range(1, I["n"] + 1):
            self.G.nodes[self.name[v]].update(self.node_attrs(I, v))
        for i in range(I["n"] + 2):
            for j in range(I["n"] + 2):
                if I["has"][i][j] and I["cost"][0][i][j] != BIG:
                    self.G.edges[self.name[i], self.name[j]].update(self.arc_attrs(I, i, j))
        self.G.nodes["Source"]["lower"] = num(I["srcLo"])
        self.G.nodes["Sink"]["upper"] = num(I["sinkUp"])

    def project(self, I):
        """the user's graph as an instance record"""
        G, n, K = self.G, I["n"], I["K"]
        idx = range(n + 2)

        def attr(v, a, f, default=0):
            return f(G.nodes[self.name[v]].get(a, default)) if self.name[v] in G else NONE

        def arc(i, j):
            return G.has_edge(self.name[i], self.name[j])

        def cost(k, i, j):
            if not arc(i, j):
                return 0
            c = G.edges[self.name[i], self.name[j]].get("cost")
            if isinstance(c, list):
                return enc(c[k]) if len(c) == K else NONE
            return enc(c) if K == 1 else NONE

        def time_(i, j):
            return enc(G.edges[self.name[i], self.name[j]].get("time", 0)) if arc(i, j) else 0

        cust = range(1, n + 1)
        du = I["du"]

        def units(x):
            return whole(x * du)

        R = dict(
            du=du,
            depdem=attr(0, "demand", whole),
            n=n if set(G.nodes()) == set(self.index) else NONE,
            K=K,
            has=[[int(arc(i, j)) for j in idx] for i in idx],
            cost=[[[cost(k, i, j) for j in idx] for i in idx] for k in range(K)],
            time=[[time_(i, j) for j in idx] for i in idx],
            dem=[attr(v, "demand", units) for v in cust],
            col=[attr(v, "collect", units) for v in cust],
            svc=[attr(v, "service_time", enc) for v in cust],
            lo=[attr(v, "lower", enc) for v in cust],
            up=[attr(v, "upper", enc) for v in cust],
            freq=[attr(v, "frequency", whole, 1) for v in cust],
            req=[self.index.get(G.nodes[self.name[v]].get("request"), 0) if self.name[v] in G else NONE
                 for v in cust],
            srcLo=attr(0, "lower", enc),
            sinkUp=attr(n + 1, "upper", enc),
        )
        return R

    # ---- parameters and arguments ----
    def params(self, P, K, du):
        one = (lambda s: s[0]) if K == 1 else list
        p = dict(
            num_stops=P["stops"] or None,
            load_capacity=one([part(c, du) for c in P["cap"]]) if P["cap"] else None,
            duration=num(P["dur"]) if P["dur"] else None,
            time_windows=P["tw"],
            pickup_delivery=P["pd"],
            distribution_collection=P["dc"],
            drop_penalty=num(P["drop"]) if P["drop"] else None,
            fixed_cost=one([num(x) for x in P["fixed"]])
            if any(P["fixed"]) or (K > 1 and not P["cap"]) else 0,
            num_vehicles=one(P["nv"]) if P["nv"] else None,
            use_all_vehicles=P["all"],
            periodic=P["per"] or None,
            mixed_fleet=P["mixed"],
            minimize_global_span=P["span"],
        )
        return p

    def arguments(self, A):
        a = dict(pricing_strategy=A["strat"], cspy=A["cspy"], elementary=A["elem"], dive=A["dive"],
                 greedy=A["greedy"], run_exact=A["exact"], heuristic_only=A["heur"])
        if A["init"]:
            a["initial_routes"] = [[self.name[v] for v in r] for r in A["init"]]
        if A["pre"]:
            a["preassignments"] = [[self.name[v] for v in r] for r in A["pre"]]
        if A["maxiter"]:
            a["max_iter"] = A["maxiter"]
        if A["tlimit"]:
            a["time_limit"] = A["tlimit"]
        return a

    # ---- deliberate defects ----
    def damage(self, G, p, a, I, A):
        """returns True if the graph has been replaced"""
        d, v, K, n = A["defect"], self.name[A["dv"]], I["K"], I["n"]
        w = self.name[A["dv"] % n + 1]
        trips = [[self.name[0], self.name[u], self.name[n + 1]] for u in range(1, n + 1)]
        if any(I["req"]):
            trips = [["Source", self.name[u], self.name[I["req"][u - 1]], "Sink"]
                     for u in range(1, n + 1) if I["req"][u - 1]]
        bump = -1 if self.rng.random() < 0.5 else 1
        C = G.copy()
        if d == "graph_type":
            C = nx.Graph(G)
        elif d == "no_source":
            C.remove_node("Source")
        elif d == "no_sink":
            C.remove_node("Sink")
        elif d == "source_in":
            C.add_edge(v, "Source", cost=[1] * K if K > 1 else 1, time=1)
        elif d == "sink_out":
            C.add_edge("Sink", v, cost=[1] * K if K > 1 else 1, time=1)
        elif d == "no_cost":
            e = self.rng.choice(sorted(C.edges(), key=str))
            del C.edges[e]["cost"]
        elif d == "strategy":
            a["pricing_strategy"] = self.rng.choice(["Best", "exact", "", None])
        elif d == "pre_arc":
            if C.has_edge(v, w):
                C.remove_edge(v, w)
            a["preassignments"] = [[v, w]]
        elif d == "stops_float":
            p["num_stops"] += 0.5
        elif d == "stops_neg":
            p["num_stops"] = -p["num_stops"]
        elif d == "dur_float":
            p["duration"] += 0.5
        elif d == "dur_neg":
            p["duration"] = -p["duration"]
        elif d in ("cap_float", "cap_neg"):
            def f(x):
                return x + 0.5 if d == "cap_float" else -x
            if K == 1:
                p["load_capacity"] = f(p["load_capacity"])
            else:
                p["load_capacity"][A["dk"] - 1] = f(p["load_capacity"][A["dk"] - 1])
        elif d == "dim_nv":
            p["num_vehicles"] = [3] * (K + bump)
        elif d == "dim_fixed":
            p["fixed_cost"] = [3] * (K + bump)
        elif d == "cost_scalar":
            e = self.rng.choice(sorted(C.edges(), key=str))
            C.edges[e]["cost"] = 5
        elif d == "cost_dim":
            e = self.rng.choice(sorted(C.edges(), key=str))
            C.edges[e]["cost"] = [5] * (K + bump)
        elif d == "init_start":
            trips[0] = trips[0][1:]
        elif d == "init_end":
            trips[0] = trips[0][:-1]
        elif d == "init_missing":
            trips = [[u for u in r if u != v] for r in trips]
            trips = [r for r in trips if len(r) > 2] or [["Source", "Sink"]]
        elif d == "init_arc":
            if C.has_edge(v, w):
                C.remove_edge(v, w)
            trips = [["Source", v, w, "Sink"]] + [r for r in trips if v not in r and w not in r]
        elif d == "pd_cspy":
            a["cspy"] = True
        elif d == "pd_norequest":
            for u in C.nodes():
                C.nodes[u].pop("request", None)
        elif d == "heur_on":
            a["heuristic_only"] = True
        else:
            return None
        if d.startswith("init_"):
            a["initial_routes"] = trips
        return C

    # ---- one call ----
    def run(self, step):
        I, P, A = step["I"], step["P"], step["A"]
        p = self.params(P, I["K"], I["du"])
        a = self.arguments(A)
        if self.G is None:
            self.G = self.build(I)
            self.I = I
        elif self.I != I:
            self.modify(I)
            self.I = I
        events = []
        self.events = events
        self.recorder = Recorder(self, I)
        if hasattr(vrpy, "_trace"):
            vrpy._trace.EVENTS = self.recorder
        damaged = self.damage(self.G, p, a, I, A) if A["defect"] != "none" else None
        outcome = None
        try:
            random.seed(self.scn["seed"])
            try:
                import numpy
                numpy.random.seed(self.scn["seed"])
            except Exception:
                pass
            Clock.ticks = 0
            Clock.on = bool(A["tlimit"])
            if damaged is not None:
                prob = VehicleRoutingProblem(damaged, **p)
            elif self.prob is None or A["mode"] == "new":
                prob = self.prob = VehicleRoutingProblem(self.G, **p)
            else:
                prob = self.prob
                for x, y in p.items():
                    setattr(prob, x, [] if x == "num_vehicles" and y is None else y)
            prob.solve(**a)
            outcome = self.report(prob, I, P)
        except Exception as ex:
            events.append(dict(e="raise", clk=-1, crash=isinstance(ex, CRASH), msg="%s: %s" % (type(ex).__name__, str(ex)[:200])))
        finally:
            Clock.on = False
        after = dict(checked=damaged is None, graph=I if damaged is not None else self.project(I))
        if outcome is None:
            events[-1]["after"] = after
        else:
            events.append(dict(e="return", clk=-1, out=outcome, after=after))
        return dict(I=I, P=P, A=A, events=events)

    def report(self, prob, I, P):
        du = I["du"]

        def units(x):
            return whole(x * du) if x is not None else NONE

        best = prob.best_routes
        items = list(best.items()) if isinstance(best, dict) else list(enumerate(best))
        types, costs = prob.best_routes_type, prob.best_routes_cost
        timed = P["dur"] > 0 or P["tw"]
        loaded = bool(P["cap"]) and not P["dc"] and not P["pd"]
        noded = bool(P["cap"]) or P["dc"] or P["pd"]
        loads = prob.best_routes_load
        nloads = prob.node_load
        durs, arrs, deps = prob.best_routes_duration, prob.arrival_time, prob.departure_time
        routes = []
        for rid, nodes in items:
            ty = types[rid]
            def per_node(d, f):
                try:
                    return [f(d[rid][x]) for x in nodes]
                except Exception:
                    return []
            routes.append(dict(
                nodes=[self.index.get(x, NONE) for x in nodes],
                type=ty + 1 if isinstance(ty, int) else NONE,
                cost=enc(costs.get(rid)),
                load=units(loads.get(rid)) if loaded else NONE,
                nload=per_node(nloads, units) if noded else [],
                dur=enc(durs.get(rid)) if timed else NONE,
                arr=per_node(arrs, enc) if timed else [],
                dep=per_node(deps, enc) if timed else [],
            ))
        sched = []
        if P["per"]:
            pos = {rid: i + 1 for i, (rid, _) in enumerate(items)}
            s = prob.schedule
            for day, rids in sorted((s or {}).items()):
                sched.append(dict(day=whole(day), routes=[pos.get(r, NONE) for r in rids]))
        return dict(kind="ok", value=enc(prob.best_value), routes=routes, sched=sched)


class Recorder(list):
    """Turns the events of vrpy._trace into events of the specification."""

    def __init__(self, session, I):
        self.s = session
        self.I = I

    def append(self, event):
        try:
            self.record(event)
        except Exception:
            pass  # cannot be read any more: nothing is judged

    def record(self, event):
        kind, data = event
        clk = Clock.ticks if Clock.on else -1
        ev = self.s.events
        if len(ev) > 3000:
            return
        if kind == "column":
            ev.append(dict(e="column", clk=clk, col=self.column(data["route"])))
        elif kind == "master" and data["relax"]:
            ev.append(dict(e="master", clk=clk, dive=False, d=self.duals(data["duals"]), value=enc(data["value"])))
        elif kind == "dive":
            ev.append(dict(e="master", clk=clk, dive=True, d=self.duals(data["duals"]), value=enc(data["value"])))
        elif kind == "iteration":
            ev.append(dict(e="iteration", clk=clk, more=bool(data["more"])))

    def column(self, r):
        extra = 0
        if "path" in r.graph:
            path = list(r.graph["path"])
        else:
            path, seen = ["Source"], {"Source"}
            while path[-1] in r and path[-1] != "Sink":
                nxt = list(r.successors(path[-1]))
                if len(nxt) != 1 or nxt[0] in seen:
                    extra = 1
                    break
                path.append(nxt[0])
                seen.add(nxt[0])
            extra = max(extra, abs(r.number_of_edges() - len(path) + 1))
        return dict(nodes=[self.s.index.get(x, NONE) for x in path],
                    type=r.graph["vehicle_type"] + 1, cost=enc(r.graph["cost"]),
                    elem="non" not in str(r.graph["name"]), extra=extra)

    def duals(self, d):
        try:
            ok = True
            v = []
            for i in range(1, self.I["n"] + 1):
                x = d.get(self.s.name[i])
                if x is None or abs(x) > 1e5:
                    ok, x = False, 0
                v.append(int(round(1000 * x)))
            f = []
            if "upper_bound_vehicles" in d:
                for k in range(self.I["K"]):
                    x = d["upper_bound_vehicles"][k]
                    if x is None or abs(x) > 1e5:
                        ok, x = False, 0
                    f.append(int(round(1000 * x)))
            return dict(v=v, f=f, ok=ok)
        except Exception:
            return dict(v=[], f=[], ok=False)


def main():
    for line in sys.stdin:
        scn = json.loads(line)
        ses = Session(scn)
        steps = []
        for i, step in enumerate(scn["steps"]):
            OUT.write(json.dumps({"step": i}) + "\n")
            OUT.flush()
            steps.append(ses.run(step))
        OUT.write(json.dumps({"id": scn["id"], "steps": steps}) + "\n")
        OUT.flush()


main()
