-------------------------------- MODULE VRP --------------------------------
(***************************************************************************)
(* The vehicle routing problem vrpy solves, as observable by its users:    *)
(* instances, parameters, what a feasible route is, what a solution is,    *)
(* what each report means, and what the best achievable value is.          *)
(*                                                                         *)
(* Every rule is written as a set of names of VIOLATED CLAUSES, so that    *)
(*   - the design model (ColGen.tla) uses "no clause violated" as the      *)
(*     guard of its actions, and                                           *)
(*   - the trace specification (Trace.tla) gives a total verdict that      *)
(*     names what a recorded execution of the real code did wrong.         *)
(*                                                                         *)
(* Nodes: 0 = Source, 1..n = customers, n+1 = Sink.  Vehicle types 1..K.   *)
(* Costs, times, service times, windows and penalties are in hundredths.   *)
(* Matrices are sequences of sequences indexed by node + 1.                *)
(*                                                                         *)
(* An instance I has the fields                                            *)
(*   n, K, has, cost (per type), time, dem, col, svc, lo, up, freq,        *)
(*   req (delivery node of a pickup, or 0), srcLo, sinkUp (0: none).       *)
(* Parameters P have the fields                                            *)
(*   cap (<<>> or per type), stops, dur (0: none), tw, pd, dc, drop (0:    *)
(*   none), fixed (per type), nv (<<>> or per type), all, per (0: none),   *)
(*   mixed, span.                                                          *)
(* Arguments A of a call of solve() have the fields                        *)
(*   init, pre (sequences of node sequences), heur, maxiter, tlimit (0:    *)
(*   none), dive, greedy, cspy, strat, elem, exact.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

INF == 2000000000          \* "no such thing", larger than any cost
NONE == -999999999         \* a missing or unusable number
BIG == 100000000           \* encodes a cost of 1e10 (arcs added by the library)

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Plus(a, b) == IF a >= INF \/ b >= INF THEN INF ELSE a + b
SumSeq(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
Range2(s) == {s[i] : i \in 1..Len(s)}
Flag(b, name) == IF b THEN {name} ELSE {}
Near(a, b, tol) == Abs(a - b) <= tol

---------------------------------------------------------------------------
(* Instances *)
Cust(I) == 1..I.n
Snk(I) == I.n + 1
Arc(I, i, j) == I.has[i + 1][j + 1] = 1
ArcCost(I, k, i, j) == I.cost[k][i + 1][j + 1]
ArcTime(I, i, j) == I.time[i + 1][j + 1]
Dem(I, v) == IF v \in Cust(I) THEN I.dem[v] ELSE 0
Col(I, v) == IF v \in Cust(I) THEN I.col[v] ELSE 0
Svc(I, v) == IF v \in Cust(I) THEN I.svc[v] ELSE 0
Lo(I, v) == IF v \in Cust(I) THEN I.lo[v] ELSE IF v = 0 THEN I.srcLo ELSE 0

(* Without a closing time at the Sink, there is no constraint there: the   *)
(* latest possible return is computed from the customers' closing times.   *)
SinkUp(I) == IF I.sinkUp # 0 THEN I.sinkUp
             ELSE Max({I.up[v] + I.svc[v] + ArcTime(I, v, Snk(I)) : v \in Cust(I)})

---------------------------------------------------------------------------
(* Routes: node sequences from 0 to n+1 driven by a vehicle type *)
Customers(s) == SubSeq(s, 2, Len(s) - 1)
WellFormed(I, s) ==
    /\ Len(s) >= 2
    /\ s[1] = 0 /\ s[Len(s)] = Snk(I)
    /\ \A i \in 2..(Len(s) - 1) : s[i] \in Cust(I)
    /\ \A i \in 1..(Len(s) - 1) : Arc(I, s[i], s[i + 1])
Simple(s) == Cardinality(Range2(s)) = Len(s)
Trip(I, q) == <<0>> \o q \o <<Snk(I)>>

Load(I, q) == FoldLeft(LAMBDA x, v : x + Dem(I, v), 0, q)
(* Loads on board after each node, when picking up and delivering *)
PDLoads(I, q) == FoldLeft(LAMBDA a, v : Append(a, a[Len(a)] + Dem(I, v)), <<0>>, q)
(* Loads on board on each leg, when all distributed goods are taken along *)
DCLoads(I, q) == FoldLeft(LAMBDA a, v : Append(a, a[Len(a)] - Dem(I, v) + Col(I, v)),
                          <<Load(I, q)>>, q)
TravelTime(I, s) == SumSeq([i \in 1..(Len(s) - 1) |-> ArcTime(I, s[i], s[i + 1])])
ServiceTime(I, s) == SumSeq([i \in 1..Len(s) |-> Svc(I, s[i])])
Duration(I, s) == TravelTime(I, s) + ServiceTime(I, s)
(* Start of service at each node of s: travel, serve, wait *)
Arrivals(I, s) ==
    FoldLeft(LAMBDA a, i : Append(a, Max2(a[i - 1] + Svc(I, s[i - 1])
                                           + ArcTime(I, s[i - 1], s[i]), Lo(I, s[i]))),
             <<I.srcLo>>, [i \in 1..(Len(s) - 1) |-> i + 1])
TravelCost(I, k, s) == SumSeq([i \in 1..(Len(s) - 1) |-> ArcCost(I, k, s[i], s[i + 1])])
RouteCost(I, P, k, s) == TravelCost(I, k, s) + P.fixed[k]

WindowsMet(I, s) ==
    LET a == Arrivals(I, s)
    IN  /\ \A i \in 2..(Len(s) - 1) : a[i] <= I.up[s[i]]
        /\ a[Len(s)] <= SinkUp(I)

IndexOf(q, v) == CHOOSE i \in 1..Len(q) : q[i] = v
PairsMet(I, q) ==
    \A p \in Cust(I) : I.req[p] # 0 =>
        /\ p \in Range2(q) <=> I.req[p] \in Range2(q)
        /\ p \in Range2(q) => IndexOf(q, p) < IndexOf(q, I.req[p])
PDLoadMet(I, cap, q) == \A i \in 1..(Len(q) + 1) : PDLoads(I, q)[i] \in 0..cap
DCLoadMet(I, cap, q) == \A i \in 1..(Len(q) + 1) : DCLoads(I, q)[i] <= cap

(* The clauses a route on its own violates *)
RouteBad(I, P, s, k) ==
    IF ~WellFormed(I, s) THEN {"path"}
    ELSE LET q == Customers(s) IN
         Flag(Len(q) = 0, "nonempty")
    \cup Flag(~Simple(s), "simple")
    \cup Flag(P.stops > 0 /\ Len(q) > P.stops, "stops")
    \cup Flag(P.dur > 0 /\ Duration(I, s) > P.dur, "dur")
    \cup (IF P.tw THEN Flag(~WindowsMet(I, s), "tw") ELSE {})
    \cup (IF P.pd /\ Simple(s) THEN Flag(~PairsMet(I, q), "pd") ELSE {})
    \cup IF k \notin 1..I.K THEN {"type"}
         ELSE IF P.cap = <<>> THEN {}
         ELSE Flag(~P.pd /\ Load(I, q) > P.cap[k], "cap")
         \cup (IF P.pd THEN Flag(~PDLoadMet(I, P.cap[k], q), "pd") ELSE {})
         \cup (IF P.dc THEN Flag(~DCLoadMet(I, P.cap[k], q), "dc") ELSE {})
RouteOK(I, P, s, k) == RouteBad(I, P, s, k) = {}

---------------------------------------------------------------------------
(* The best achievable values, by enumeration (small instances) *)
ENUM == 5
Orders == TLCEval([S \in SUBSET (1..ENUM) |-> {t \in SetToAllKPermutations(S) : Len(t) = Cardinality(S)}])

(* tab[k][S]: cost of the cheapest feasible route of type k visiting S *)
RouteTable(I, P) ==
    [k \in 1..I.K |->
        [S \in (SUBSET Cust(I)) \ {{}} |->
            LET c == {RouteCost(I, P, k, Trip(I, q)) :
                        q \in {o \in Orders[S] : RouteOK(I, P, Trip(I, o), k)}}
            IN  IF c = {} THEN INF ELSE Min(c)]]

Need(I, P) == [v \in Cust(I) |-> IF P.per > 0 THEN I.freq[v] ELSE 1]
Fleet(P) == P.nv # <<>> /\ P.per = 0
Use0(I) == [k \in 1..I.K |-> 0]

(* Value of the best selection of routes of tab that serves need (INF if none). *)
(* acc: cost (or span) so far; pen: penalties so far; used: vehicles so far.    *)
RECURSIVE Best(_, _, _, _, _, _, _)
Best(I, P, tab, need, used, acc, pen) ==
    LET open == {v \in Cust(I) : need[v] > 0} IN
    IF open = {} THEN IF Fleet(P) /\ P.all /\ used # P.nv THEN INF ELSE acc + pen
    ELSE LET v == Min(open)
             cand == {<<k, S>> \in (1..I.K) \X SUBSET open :
                         /\ v \in S
                         /\ tab[k][S] < INF
                         /\ Fleet(P) => used[k] < P.nv[k]}
             vals == {Best(I, P, tab,
                           [w \in Cust(I) |-> IF w \in c[2] THEN need[w] - 1 ELSE need[w]],
                           [used EXCEPT ![c[1]] = @ + 1],
                           IF P.span THEN Max2(acc, tab[c[1]][c[2]])
                                     ELSE acc + tab[c[1]][c[2]],
                           pen) : c \in cand}
             skip == IF P.drop > 0
                     THEN {Best(I, P, tab, [need EXCEPT ![v] = 0], used, acc, pen + P.drop)}
                     ELSE {}
         IN  Min({INF} \cup vals \cup skip)
(* With frequencies (no fleet limit, no dropping): bottom up, by total need *)
BestPeriodic(I, P, tab) ==
    LET low == TLCEval([S \in (SUBSET Cust(I)) \ {{}} |-> Min({tab[k][S] : k \in 1..I.K})])
        top == Need(I, P)
        Total(need) == FoldSet(LAMBDA v, x : x + need[v], 0, Cust(I))
        all == TLCEval({need \in [Cust(I) -> 0..Max({top[v] : v \in Cust(I)})] :
                           \A v \in Cust(I) : need[v] <= top[v]})
        Value(val, need) ==
            LET open == {v \in Cust(I) : need[v] > 0}
                v0 == Min(open)
            IN  Min({INF} \cup {Plus(low[S], val[[v \in Cust(I) |-> IF v \in S THEN need[v] - 1 ELSE need[v]]]) :
                                S \in {X \in SUBSET open : v0 \in X}})
        Grow(val, t) == TLCEval([need \in {x \in all : Total(x) <= t} |->
                                    IF need \in DOMAIN val THEN val[need] ELSE Value(val, need)])
        zero == [need \in {[v \in Cust(I) |-> 0]} |-> 0]
    IN  FoldLeft(Grow, zero, [t \in 1..Total(top) |-> t])[top]
BestOf(I, P, tab) ==
    IF P.per > 0 THEN BestPeriodic(I, P, tab) ELSE Best(I, P, tab, Need(I, P), Use0(I), 0, 0)

(* The table of a given set of candidate routes [nodes, type, cost, elem] *)
PoolTable(I, cols) ==
    [k \in 1..I.K |->
        [S \in (SUBSET Cust(I)) \ {{}} |->
            LET c == {r.cost : r \in {x \in cols : x.elem /\ x.type = k
                                                   /\ Range2(Customers(x.nodes)) = S}}
            IN  IF c = {} THEN INF ELSE Min(c)]]

---------------------------------------------------------------------------
(* Acceptance of inputs *)
(* v's own trip (or its request's trip) is possible with some vehicle *)
OwnTrip(I, P, v) ==
    IF ~P.pd THEN <<v>>
    ELSE IF I.req[v] # 0 THEN <<v, I.req[v]>>
    ELSE IF \E p \in Cust(I) : I.req[p] = v
         THEN <<CHOOSE p \in Cust(I) : I.req[p] = v, v>> ELSE <<v>>
Servable(I, P) == \A v \in Cust(I) : \E k \in 1..I.K : RouteOK(I, P, Trip(I, OwnTrip(I, P, v)), k)
(* Nobody can serve v, whatever the route: too much, too far, or too late *)
Hopeless(I, P) ==
    \E v \in Cust(I) :
        \/ P.cap # <<>> /\ (I.dem[v] > Max(Range2(P.cap)) \/ (P.dc /\ I.col[v] > Max(Range2(P.cap))))
        \/ LET tin == Min({ArcTime(I, i, v) : i \in {x \in 0..I.n : x # v /\ Arc(I, x, v)}})
               tout == Min({ArcTime(I, v, j) : j \in {x \in 1..Snk(I) : x # v /\ Arc(I, v, x)}})
           IN  \/ P.dur > 0 /\ tin + I.svc[v] + tout > P.dur
               \/ P.tw /\ (\/ I.srcLo + tin > I.up[v]
                           \/ Max2(I.srcLo + tin, I.lo[v]) + I.svc[v] + tout > SinkUp(I)
                           \/ I.lo[v] > I.up[v])

---------------------------------------------------------------------------
(* Solutions: sequences of [nodes, type, cost, ...] *)
Visits(I, rs, v) ==
    FoldLeft(LAMBDA x, r : x + Cardinality({i \in 1..Len(r.nodes) : r.nodes[i] = v}), 0, rs)
Dropped(I, rs) == {v \in Cust(I) : Visits(I, rs, v) = 0}
CountType(rs, k) == Cardinality({i \in 1..Len(rs) : rs[i].type = k})
IsFull(I, q) == Len(q) >= 2 /\ q[1] = 0 /\ q[Len(q)] = Snk(I)
HasPart(s, q) == \E i \in 0..(Len(s) - Len(q)) : \A j \in 1..Len(q) : s[i + j] = q[j]

CoverBad(I, P, A, rs) ==
    IF P.per > 0
    THEN Flag(\E v \in Cust(I) : Visits(I, rs, v) # I.freq[v], "freq")
    ELSE IF P.drop > 0
    THEN Flag(\E v \in Cust(I) : Visits(I, rs, v) > 1, "drop")
    ELSE Flag(\E v \in Cust(I) : Visits(I, rs, v) # 1, "cover")
FleetBad(I, P, A, rs) ==
    IF ~Fleet(P) \/ A.heur THEN {}
    ELSE Flag(\E k \in 1..I.K : CountType(rs, k) > P.nv[k], "fleet")
    \cup Flag(P.all /\ \E k \in 1..I.K : CountType(rs, k) # P.nv[k], "useall")
LockBad(I, P, A, rs) ==
         Flag(\E i \in 1..Len(A.pre) : IsFull(I, A.pre[i])
                /\ ~\E j \in 1..Len(rs) : rs[j].nodes = A.pre[i], "lockfull")
    \cup Flag(\E i \in 1..Len(A.pre) : ~IsFull(I, A.pre[i])
                /\ ~\E j \in 1..Len(rs) : HasPart(rs[j].nodes, A.pre[i]), "lockpart")

(* Schedules: sequences of [day, routes (indices into rs)] *)
Days(P) == 0..(P.per - 1)
DayOf(sched, r) == {sched[i].day : i \in {x \in 1..Len(sched) : r \in Range2(sched[x].routes)}}
GoodDays(I, P, rs, day) ==
    /\ \A d \in Days(P) :
         LET on == {r \in 1..Len(rs) : day[r] = d} IN
         /\ \A r1, r2 \in on : r1 # r2 =>
                Range2(Customers(rs[r1].nodes)) \cap Range2(Customers(rs[r2].nodes)) = {}
         /\ P.nv # <<>> => \A k \in 1..I.K :
                Cardinality({r \in on : rs[r].type = k}) <= P.nv[k]
(* can the routes be spread over the days?  day: days of the first routes;  *)
(* days are interchangeable, so a route goes on a used day or the next one  *)
RECURSIVE CanSchedule(_, _, _, _)
CanSchedule(I, P, rs, day) ==
    IF Len(day) = Len(rs) THEN TRUE
    ELSE LET r == Len(day) + 1
             next == Max({-1} \cup Range2(day)) + 1
             clash == {day[x] : x \in {y \in 1..Len(day) :
                        Range2(Customers(rs[y].nodes)) \cap Range2(Customers(rs[r].nodes)) # {}}}
             full == IF P.nv = <<>> THEN {}
                     ELSE {d \in Days(P) : Cardinality({x \in 1..Len(day) : day[x] = d /\ rs[x].type = rs[r].type})
                                           >= P.nv[rs[r].type]}
         IN  \E d \in (Days(P) \cap (0..next)) \ (clash \cup full) :
                 CanSchedule(I, P, rs, Append(day, d))
SchedBad(I, P, rs, sched) ==
    IF P.per = 0 THEN {}
    ELSE IF sched = <<>>
    THEN Flag(Len(rs) > 0 /\ CanSchedule(I, P, rs, <<>>), "sched")
    ELSE IF \E r \in 1..Len(rs) : Cardinality(DayOf(sched, r)) # 1
            \/ ~(DayOf(sched, r) \subseteq Days(P))
    THEN {"sched"}
    ELSE IF \E i \in 1..Len(sched) : \E a, b \in 1..Len(sched[i].routes) :
              a # b /\ sched[i].routes[a] = sched[i].routes[b]
    THEN {"sched"}
    ELSE Flag(~GoodDays(I, P, rs, [r \in 1..Len(rs) |-> CHOOSE d \in DayOf(sched, r) : TRUE]),
              "sched")

---------------------------------------------------------------------------
(* Reports *)
TOL == 2
(* Preassigned complete routes are priced like any other route *)
Penalty(I, P, rs) == IF P.drop > 0 THEN P.drop * Cardinality(Dropped(I, rs)) ELSE 0
TrueValue(I, P, rs) ==
    LET c == [i \in 1..Len(rs) |-> RouteCost(I, P, rs[i].type, rs[i].nodes)]
    IN  (IF P.span THEN (IF Len(rs) = 0 THEN 0 ELSE Max(Range2(c))) ELSE SumSeq(c)) + Penalty(I, P, rs)
Priced(I, rs) == \A i \in 1..Len(rs) : WellFormed(I, rs[i].nodes) /\ rs[i].type \in 1..I.K
(* costs of 1e10 are huge floating point numbers in the code *)
Huge(x) == x >= BIG \div 2

CostBad(I, P, rs) ==
    Flag(\E i \in 1..Len(rs) : ~Near(rs[i].cost, RouteCost(I, P, rs[i].type, rs[i].nodes), TOL), "cost")
ValueBad(I, P, rs, value) ==
    LET t == TrueValue(I, P, rs)
    IN  Flag(~Near(value, t, TOL), IF P.span THEN "spanval" ELSE IF P.drop > 0 THEN "dropval" ELSE "value")

NodeLoads(I, P, r) ==     \* expected load report per node of r
    IF P.dc
    THEN FoldLeft(LAMBDA a, i : Append(a, (IF i = 1 THEN P.cap[r.type] ELSE a[i - 1])
                        - Dem(I, r.nodes[i]) + Col(I, r.nodes[i])), <<>>, [i \in 1..Len(r.nodes) |-> i])
    ELSE FoldLeft(LAMBDA a, i : Append(a, (IF i = 1 THEN 0 ELSE a[i - 1]) + Dem(I, r.nodes[i])),
                  <<>>, [i \in 1..Len(r.nodes) |-> i])
NearSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], TOL)
ReportBad(I, P, rs) ==
    UNION {LET r == rs[i]
               arr == Arrivals(I, r.nodes)
               timed == P.dur > 0 \/ P.tw
           IN  IF ~Simple(r.nodes) THEN {} ELSE
               Flag(P.cap # <<>> /\ ~P.dc /\ ~P.pd /\ r.load # Load(I, Customers(r.nodes)), "load")
          \cup Flag((P.cap # <<>> \/ P.pd \/ P.dc) /\ r.nload # NodeLoads(I, P, r), "nodeload")
          \cup Flag(timed /\ ~Near(r.dur, Duration(I, r.nodes), TOL), "durrep")
          \cup Flag(timed /\ ~NearSeq(r.arr, arr), "arr")
          \cup Flag(timed /\ ~NearSeq(r.dep, [j \in 1..Len(arr) |-> arr[j] + Svc(I, r.nodes[j])]), "dep")
          : i \in 1..Len(rs)}

(* Everything a returned answer violates *)
AnswerBad(I, P, A, out) ==
    LET rs == out.routes IN
    UNION {RouteBad(I, P, rs[i].nodes, rs[i].type) : i \in 1..Len(rs)}
    \cup CoverBad(I, P, A, rs)
    \cup FleetBad(I, P, A, rs)
    \cup LockBad(I, P, A, rs)
    \cup IF ~Priced(I, rs) THEN {}
         ELSE CostBad(I, P, rs) \cup ValueBad(I, P, rs, out.value) \cup ReportBad(I, P, rs)
              \cup SchedBad(I, P, rs, out.sched)

---------------------------------------------------------------------------
(* Starting solutions that bound the value from above *)
IsPartition(I, P, routes) ==
    /\ routes # <<>>
    /\ \A v \in Cust(I) : Cardinality({<<i, j>> \in (1..Len(routes)) \X (1..(I.n + 2)) :
            j <= Len(routes[i]) /\ routes[i][j] = v}) = 1
(* type given to a starting route: the first one that is large enough *)
FirstFit(I, P, s) ==
    IF P.cap = <<>> THEN 1
    ELSE LET q == Customers(s)
             need == IF P.dc THEN Max2(Load(I, q), FoldLeft(LAMBDA x, v : x + Col(I, v), 0, q))
                     ELSE Load(I, q)
             ok == {k \in 1..I.K : need <= P.cap[k]}
         IN  IF ok = {} THEN 0 ELSE Min(ok)
StartValue(I, P, routes) ==   \* INF if routes is no usable solution
    LET ty == [i \in 1..Len(routes) |-> FirstFit(I, P, routes[i])]
        rs == [i \in 1..Len(routes) |-> [nodes |-> routes[i], type |-> ty[i]]]
    IN  IF \/ P.per > 0
           \/ ~IsPartition(I, P, routes)
           \/ \E i \in 1..Len(routes) : ty[i] = 0 \/ ~WellFormed(I, routes[i])
           \/ FleetBad(I, P, [heur |-> FALSE], rs) # {}
        THEN INF
        ELSE TrueValue(I, P, rs)
OwnTrips(I, P) ==
    IF P.pd THEN [i \in 1..Cardinality({p \in Cust(I) : I.req[p] # 0}) |->
                    LET p == SetToSortSeq({x \in Cust(I) : I.req[x] # 0}, <)[i]
                    IN  <<0, p, I.req[p], Snk(I)>>]
    ELSE [v \in Cust(I) |-> <<0, v, Snk(I)>>]
(* Round trips are the starting routes unless the savings heuristic applies *)
TripsAreStart(P) == P.mixed \/ P.tw \/ P.pd \/ P.dc \/ P.per > 0
=============================================================================
