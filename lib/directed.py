"""Sessions near a suspicious one.

If a recorded session violates a clause of some other property (say, a candidate
route that is too heavy enters the pool, but is not selected), the same calls are
made again with other costs: such that the suspicious route is cheap, or at random.
Nothing but costs, seeds and the options of the search change, hence these sessions
are as valid as the one they are derived from.
"""
import copy
import random

BIG = 100000000  # as in VRP.tla: cost of an arc that is missing in the input


def recost(I, rng, route, ktype, how):
    n = I["n"]
    arcs = set(zip(route[:-1], route[1:])) if route else set()
    bump = rng.choice([300, 2000, 10000])
    for k in range(I["K"]):
        for i in range(n + 2):
            for j in range(n + 2):
                c = I["cost"][k][i][j]
                if not I["has"][i][j] or c >= BIG:
                    continue
                if not arcs:
                    c = 100 * rng.randint(0, bump // 100)
                elif (i, j) in arcs and k + 1 == ktype:
                    c = 0 if how % 2 else c
                elif how % 3 == 0:
                    c = c * 3 + 100 * rng.randint(0, bump // 100)
                else:
                    c = c + bump
                I["cost"][k][i][j] = c


def sessions(suspects, seed, each=10, most=6):
    rng = random.Random(seed)
    # different clauses and routes first
    seen, pick = set(), []
    for scn, st, clause, ev in suspects:
        col = ev.get("col")
        key = (clause, scn["id"], st)
        if key not in seen:
            seen.add(key)
            pick.append((scn, st, clause, col))
    rng.shuffle(pick)
    pick.sort(key=lambda x: not (x[3] and x[2] in ("colfeas", "colcost")))
    out = []
    for x, (scn, st, clause, col) in enumerate(pick[:most]):
        for how in range(each):
            new = copy.deepcopy(scn)
            new["id"] = "%s+%d.%d.%d" % (scn["id"], seed, x, how)
            new["seed"] = rng.randint(1, 10**6)
            new["steps"] = new["steps"][:st] if how % 4 == 3 else [new["steps"][st - 1]]
            route = col["nodes"] if col else None
            cost = copy.deepcopy(new["steps"][-1]["I"])
            recost(cost, rng, route, col["type"] if col else 0, how)
            for s in new["steps"]:
                s["I"]["cost"] = cost["cost"]
                if s["I"]["n"] > 20 or s["A"]["pre"] or s["P"]["span"]:
                    continue
                if how % 5 < 3:
                    s["A"]["maxiter"], s["A"]["dive"] = 0, False
                if how % 5 == 1:
                    s["A"]["strat"] = "Exact"
                if how % 5 == 2 and col:
                    s["A"]["maxiter"] = rng.randint(1, 3)
                if how > 6 and not s["P"]["pd"]:
                    s["A"]["greedy"] = s["A"]["greedy"] or bool(how % 2)
            out.append(new)
    return out
