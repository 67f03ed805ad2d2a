--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* The design model: every behaviour of a problem object over small        *)
(* instances, parameters and arguments, chosen per property.               *)
(*                                                                         *)
(* The environment is nondeterministic where the library is: which optimal *)
(* dual prices the relaxed master problem reports, which improving route   *)
(* pricing finds (any heuristic or exact pricing picks one of them), when  *)
(* the clock passes the limit, which of several optimal selections the     *)
(* integer master problem returns, and what the user calls next.           *)
(*                                                                         *)
(* Bug # "none" plants a mistake in the design; it is used to show that    *)
(* the properties are not vacuous (each mistake must be reported).         *)
(***************************************************************************)
EXTENDS ColGen, Profiles, IOUtils

Prop == IOEnv.VPROP
Bug == IOEnv.VBUG
Deep == IOEnv.VTIER = "thorough"
MaxCalls == IF Prop \in {"C17", "C15", "C13"} THEN 2 ELSE 1

VARIABLES pc, calls, over, bad
mvars == <<vars, pc, calls, over, bad>>

---------------------------------------------------------------------------
(* Instances *)
Pat(x, i, j) == CASE x = 1 -> 100
                  [] x = 2 -> 100 * (1 + ((i + 2 * j) % 3))
                  [] x = 3 -> 100 * (((2 * i + j) % 3))
Miss(x, n, i, j) == i = j \/ i = n + 1 \/ j = 0 \/ (i = 0 /\ j = n + 1) \/ (x = 3 /\ i = 1 /\ j = 2)
MkInst(x, n, K, pd) ==
    LET M(F(_, _)) == [i \in 1..(n + 2) |-> [j \in 1..(n + 2) |->
                          IF Miss(x, n, i - 1, j - 1) /\ ~(pd /\ i = 2 /\ j = 3) THEN 0 ELSE F(i - 1, j - 1)]]
        one(i, j) == 1
        tim(i, j) == 100 * (1 + ((2 * i + j) % 2))
    IN  [n |-> n, K |-> K, has |-> M(one),
         cost |-> [k \in 1..K |-> LET c(i, j) == Pat(x, i, j) + 50 * (k - 1) IN M(c)],
         time |-> M(tim),
         dem |-> IF pd THEN SubSeq(<<1, -1, 2, -2>>, 1, n) ELSE SubSeq(<<1, 2, 1>>, 1, n),
         col |-> SubSeq(<<2, 0, 1, 0>>, 1, n), svc |-> SubSeq(<<0, 100, 100, 0>>, 1, n),
         lo |-> SubSeq(<<0, 300, 100, 0>>, 1, n), up |-> SubSeq(<<500, 400, 300, 900>>, 1, n),
         freq |-> SubSeq(<<1, 2, 1, 1>>, 1, n),
         req |-> IF pd THEN SubSeq(<<2, 0, 4, 0>>, 1, n) ELSE [v \in 1..n |-> 0],
         srcLo |-> 0, sinkUp |-> IF x = 2 THEN 900 ELSE 0]
Feat(f) == Prop \in f
Insts ==
    LET ks == IF Feat({"C08"}) THEN {2} ELSE IF Feat({"C07", "C09", "C11", "C16", "C17"}) THEN {1, 2} ELSE {1}
        ns(k) == IF Feat({"C06"}) THEN (IF Deep THEN {2, 4} ELSE {2})
                 ELSE IF k = 2 \/ MaxCalls = 2 \/ Feat({"C01", "C09", "C11", "C16", "C19", "C21", "C22", "C23"}) THEN {2} \cup (IF Deep /\ MaxCalls = 1 THEN {3} ELSE {})
                 ELSE {2, 3}
    IN  UNION {UNION {{MkInst(x, n, k, Feat({"C06"})) : x \in 1..3} : n \in ns(k)} : k \in ks}

(* Parameters *)
P0(I) == [cap |-> <<>>, stops |-> 0, dur |-> 0, tw |-> FALSE, pd |-> FALSE, dc |-> FALSE,
          mixed |-> I.K > 1, drop |-> 0, fixed |-> [k \in 1..I.K |-> 0], nv |-> <<>>, all |-> FALSE,
          per |-> 0, span |-> FALSE]
Cap(I, c) == [k \in 1..I.K |-> c + k - 1]
Pars(I) ==
    LET b == P0(I)
        caps == {[b EXCEPT !.cap = Cap(I, c)] : c \in {2, 3}}
        stops == {[b EXCEPT !.stops = c] : c \in 1..2}
        durs == {[b EXCEPT !.dur = c] : c \in {500, 700}}
        tws == {[b EXCEPT !.tw = TRUE]}
        fixed == {[b EXCEPT !.fixed = [k \in 1..I.K |-> 100 * k]]}
        both(S, T(_)) == UNION {T(p) : p \in S}
        drops(p) == {[p EXCEPT !.drop = d] : d \in {100, 250}}
        fleets(p) == {[p EXCEPT !.nv = v, !.all = a] : v \in [1..I.K -> 1..2], a \in BOOLEAN}
        same(p) == {p}
    IN  CASE Feat({"C02"}) -> caps
          [] Feat({"C03"}) -> stops
          [] Feat({"C04"}) -> durs
          [] Feat({"C05"}) -> {[p EXCEPT !.tw = TRUE] : p \in {b} \cup stops}
          [] Feat({"C06"}) -> {[b EXCEPT !.pd = TRUE, !.cap = <<c>>, !.stops = s] : c \in 2..3, s \in {0, 2}}
          [] Feat({"C07"}) -> {[p EXCEPT !.dc = TRUE] : p \in caps}
          [] Feat({"C08"}) -> caps \cup {[p EXCEPT !.fixed = [k \in 1..I.K |-> 100 * k]] : p \in caps}
          [] Feat({"C09"}) -> both({b} \cup {[b EXCEPT !.cap = Cap(I, 2)]}, fleets)
          [] Feat({"C10"}) -> both({b} \cup stops \cup {[b EXCEPT !.nv = <<1>>]}, drops)
          [] Feat({"C11"}) -> {[b EXCEPT !.per = 2, !.nv = v] : v \in {<<>>} \cup [1..I.K -> 1..2]}
          [] Feat({"C13"}) -> fixed \cup drops(b)
          [] Feat({"C14"}) -> caps \cup durs \cup tws
          [] Feat({"C15"}) -> {b} \cup fixed
          [] Feat({"C16"}) -> {b} \cup caps \cup fixed
          [] Feat({"C17"}) -> {b, [b EXCEPT !.stops = 1], [b EXCEPT !.cap = Cap(I, 2)], [b EXCEPT !.drop = 100]}
          [] Feat({"C23"}) -> {[p EXCEPT !.span = TRUE] : p \in {b} \cup stops \cup drops(b)}
          [] OTHER -> {b} \cup caps \cup stops \cup durs

(* Arguments *)
A0 == [init |-> <<>>, pre |-> <<>>, heur |-> FALSE, maxiter |-> 0, tlimit |-> 0, dive |-> FALSE,
       greedy |-> FALSE, cspy |-> TRUE, strat |-> "Exact", elem |-> FALSE, exact |-> 1, defect |-> "none",
       dv |-> 1, dk |-> 1, mode |-> "same"]
Argset(I, P) ==
    CASE Feat({"C12"}) -> {[A0 EXCEPT !.pre = q] : q \in {<< <<0, 1, I.n + 1>> >>}
                              \cup (IF RouteOK(I, P, <<0, 2, 1, I.n + 1>>, 1) THEN {<< <<2, 1>> >>} ELSE {})}
      [] Feat({"C15"}) -> {A0, [A0 EXCEPT !.init = OwnTrips(I, P)], [A0 EXCEPT !.heur = TRUE]}
      [] Feat({"C18"}) -> {[A0 EXCEPT !.defect = d] : d \in {"none", "demand"}}
      [] Feat({"C20"}) -> {[A0 EXCEPT !.heur = TRUE]}
      [] Feat({"C21"}) -> {[A0 EXCEPT !.maxiter = m, !.dive = d, !.tlimit = t] :
                             m \in {0, 1, 2}, d \in BOOLEAN, t \in {0, 1}}
      [] Feat({"C01", "C19", "C22"}) -> {A0, [A0 EXCEPT !.dive = TRUE]}
      [] Feat({"C17"}) -> {A0, [A0 EXCEPT !.defect = "demand"], [A0 EXCEPT !.maxiter = 1]}
      [] OTHER -> {A0}

---------------------------------------------------------------------------
(* What the library does *)
Rule == IF Bug \in {"price", "accept"} THEN P0(inst) ELSE par
ColCost(k, s) == RouteCost(inst, par, k, s) - (IF Bug = "cost" THEN 50 ELSE 0)
Column(k, s) == [nodes |-> s, type |-> k, cost |-> ColCost(k, s), elem |-> TRUE, extra |-> 0]
AllRoutes == UNION {{Column(k, Trip(inst, q)) : q \in {o \in UNION {Orders[S] : S \in (SUBSET Cust(inst)) \ {{}}} :
                        RouteOK(inst, Rule, Trip(inst, o), k)}} : k \in 1..inst.K}
(* labelling without the elementarity check may also visit a customer twice *)
Loops == IF arg.elem \/ arg.dive \/ par.pd \/ Prop \notin {"C01", "C22", "C19"} THEN {}
         ELSE {[nodes |-> <<0, v, w, v, Snk(inst)>>, type |-> 1, elem |-> FALSE, extra |-> 0,
                cost |-> ColCost(1, <<0, v, w, v, Snk(inst)>>)] :
                 <<v, w>> \in {x \in Cust(inst) \X Cust(inst) :
                      x[1] # x[2] /\ WellFormed(inst, <<0, x[1], x[2], x[1], Snk(inst)>>)}}
Locked == {v \in Cust(inst) : \E i \in 1..Len(arg.pre) : IsFull(inst, arg.pre[i]) /\ v \in Range2(arg.pre[i])}
Keeps(c) == \A i \in 1..Len(arg.pre) : IsFull(inst, arg.pre[i])
                \/ Range2(arg.pre[i]) \cap Range2(c.nodes) = {} \/ HasPart(c.nodes, arg.pre[i])
Wanted(c) == Bug = "lock" \/ (Range2(c.nodes) \cap Locked = {} /\ Keeps(c))
StartRoutes ==
    {c \in AllRoutes : /\ Wanted(c)
                       /\ \/ \E i \in 1..Len(arg.init) : c.nodes = arg.init[i]
                          \/ arg.init = <<>> /\ \E v \in Cust(inst) : Customers(c.nodes) = OwnTrip(inst, par, v)
                          \/ \E i \in 1..Len(arg.pre) : c.nodes = Trip(inst, arg.pre[i])}

(* dual prices: optimal on a grid for the restricted master problem *)
STEP == IF Prop \in {"C09", "C10", "C17"} \/ inst.n > 2 THEN 1000 ELSE 500
PENALTY == 4000
Top == Max({c.cost * 10 : c \in pool}) + (IF Fleet(par) THEN PENALTY ELSE 0)
Grid(lo, hi) == {x \in lo..hi : x % STEP = 0}
Feas(v, f) ==
    /\ par.drop > 0 => \A u \in Cust(inst) : v[u] <= par.drop * 10
    /\ \A c \in pool : FoldLeft(LAMBDA x, u : x + v[u], 0, Customers(c.nodes))
                       + (IF f = <<>> THEN 0 ELSE f[c.type]) <= c.cost * 10
DualSet ==
    LET fs == IF Fleet(par) THEN [1..inst.K -> Grid(-PENALTY, IF par.all THEN PENALTY ELSE 0)] ELSE {<<>>}
        obj(d) == FoldLeft(LAMBDA x, u : x + d.v[u], 0, [i \in 1..inst.n |-> i])
                  + (IF d.f = <<>> THEN 0 ELSE FoldLeft(LAMBDA x, k : x + par.nv[k] * d.f[k], 0, [k \in 1..inst.K |-> k]))
        all == {[v |-> v, f |-> f, ok |-> TRUE] : v \in [1..inst.n -> Grid(0, Top)], f \in fs}
        ok == {d \in all : Feas(d.v, d.f)}
        top == Max({obj(d) : d \in ok})
    IN  {<<d, top>> : d \in {x \in ok : obj(x) = top}}
Improving == {c \in AllRoutes \cup Loops : Wanted(c) /\ ReducedCost(c) < 0}

(* selections of the integer master problem *)
Usable == {c \in pool : c.elem \/ Bug = "nonelem"}
Needs == [v \in Cust(inst) |-> IF v \in Locked THEN 0 ELSE Need(inst, par)[v]]
RECURSIVE Sel(_, _)
Sel(need, rest) ==      \* sequences of columns that serve need exactly
    LET open == {v \in Cust(inst) : need[v] > 0} IN
    IF open = {} THEN {<<>>}
    ELSE LET v == Min(open)
             take == UNION {{<<c>> \o s : s \in Sel([w \in Cust(inst) |->
                              IF w \in Range2(c.nodes) THEN need[w] - 1 ELSE need[w]], rest)} :
                            c \in {x \in Usable : v \in Range2(x.nodes)
                                     /\ \A w \in Cust(inst) : w \in Range2(x.nodes) => need[w] > 0}}
             skip == IF par.drop > 0 THEN Sel([need EXCEPT ![v] = 0], rest) ELSE {}
         IN  take \cup skip
LockedRoutes == [i \in 1..Cardinality({j \in 1..Len(arg.pre) : IsFull(inst, arg.pre[j])}) |->
                    Column(1, SelectSeq(arg.pre, LAMBDA q : IsFull(inst, q))[i])]
Selections == {LockedRoutes \o s : s \in Sel(Needs, 0)}
Legal == {s \in Selections : Bug = "fleet" \/ FleetBad(inst, par, arg, s) = {}}
ValueOf(s) == (IF par.span THEN Max({0} \cup {s[i].cost : i \in 1..Len(s)})
               ELSE FoldLeft(LAMBDA x, c : x + c.cost, 0, s))
              + (IF Bug = "penalty" THEN 0 ELSE Penalty(inst, par, s))
Report(c) ==
    LET arr == Arrivals(inst, c.nodes) IN
    [nodes |-> c.nodes, type |-> c.type, cost |-> c.cost,
     load |-> Load(inst, Customers(c.nodes)) + (IF Bug = "report" THEN 1 ELSE 0),
     nload |-> NodeLoads(inst, par, c), dur |-> Duration(inst, c.nodes) + (IF Bug = "report" THEN 50 ELSE 0), arr |-> arr,
     dep |-> [j \in 1..Len(arr) |-> arr[j] + Svc(inst, c.nodes[j])]]
Schedules(rs) ==
    IF par.per = 0 THEN {<<>>}
    ELSE LET days == [1..Len(rs) -> Days(par)]
             good == {d \in days : Bug = "sched" \/ GoodDays(inst, par, rs, d)}
         IN  IF good = {} THEN {<<>>}
             ELSE {[i \in 1..par.per |-> [day |-> i - 1, routes |-> SetToSeq({r \in 1..Len(rs) : d[r] = i - 1})]] :
                     d \in good}
Answers(S) == UNION {{[kind |-> "ok", value |-> ValueOf(s), routes |-> [i \in 1..Len(s) |-> Report(s[i])], sched |-> x] :
                        x \in Schedules(s)} : s \in S}
HeurSels == LET un == {c \in AllRoutes : Wanted(c) /\ c.type = 1} IN un
RECURSIVE Parts(_)
Parts(S) == IF S = {} THEN {<<>>}
            ELSE UNION {{<<c>> \o s : s \in Parts(S \ Range2(c.nodes))} :
                        c \in {x \in AllRoutes : Wanted(x) /\ Min(S) \in Range2(x.nodes)
                                 /\ Range2(Customers(x.nodes)) \subseteq S}}

---------------------------------------------------------------------------
Collect(b) == bad' = bad \cup b
Same == UNCHANGED <<calls, over>>
MInit ==
    /\ pc = "idle" /\ calls = 0 /\ over = FALSE /\ bad = {}
    /\ inst \in Insts
    /\ par = P0(inst) /\ arg = A0 /\ phase = "idle" /\ pool = {} /\ nseed = 0
    /\ duals = NoDuals /\ relaxed = NONE /\ nrel = 0 /\ late = [main |-> 0, dive |-> 0]
    /\ conv = FALSE /\ tab = <<>> /\ best = NONE /\ answer = NoAnswer /\ hist = NoHist
MCall ==
    /\ pc \in {"idle", "done"} /\ calls < MaxCalls
    /\ \E P \in Pars(inst) : \E A \in Argset(inst, P) :
         \E J \in {IF A.defect = "none" THEN inst ELSE [inst EXCEPT !.dem[1] = 99]} :
            /\ LET Q == IF A.defect # "none" /\ P.cap = <<>> THEN [P EXCEPT !.cap = Cap(inst, 3)] ELSE P
               IN  CallEff(J, Q, A)
    /\ calls' = calls + 1 /\ over' = FALSE /\ pc' = "check" /\ UNCHANGED bad
MRefuse ==
    /\ pc = "check"
    /\ (Hopeless(inst, par) /\ Bug # "accept") \/ Bug = "raise"
    /\ Collect(RaiseBad(FALSE)) /\ RaiseEff /\ pc' = "done" /\ Same
(* (the user repairs the data before the next call) *)
MRepair ==
    /\ pc = "done" /\ arg.defect # "none" /\ calls < MaxCalls
    /\ inst' = MkInst(CHOOSE x \in 1..3 : MkInst(x, inst.n, inst.K, FALSE).cost = inst.cost
                         /\ MkInst(x, inst.n, inst.K, FALSE).has = inst.has, inst.n, inst.K, FALSE)
    /\ arg' = A0 /\ Same /\ pc' = "done"
    /\ UNCHANGED <<par, phase, pool, nseed, duals, relaxed, nrel, late, conv, tab, best, answer, hist, bad>>
MAccept ==
    /\ pc = "check"
    /\ ~Hopeless(inst, par) \/ Bug = "accept"
    /\ Bug # "raise"
    /\ pc' = IF arg.heur THEN "heur" ELSE "seed"
    /\ Same /\ UNCHANGED <<vars, bad>>
MHeur ==
    /\ pc = "heur"
    /\ \E s \in Parts(Cust(inst) \ Locked) :
         LET rs == LockedRoutes \o s
             out == [kind |-> "ok", value |-> ValueOf(rs), routes |-> [i \in 1..Len(rs) |-> Report(rs[i])], sched |-> <<>>]
         IN  Collect(ReturnBad(out, [checked |-> TRUE, graph |-> inst])) /\ ReturnEff(out)
    /\ pc' = "done" /\ Same
MSeed ==
    /\ pc = "seed" /\ StartRoutes \ pool # {}
    /\ LET c == CHOOSE x \in StartRoutes \ pool : TRUE
       IN  Collect(ColumnBad(c)) /\ ColumnEff(c)
    /\ pc' = "seed" /\ Same
MSeeded ==
    /\ pc = "seed" /\ StartRoutes \subseteq pool
    /\ pc' = IF Cust(inst) = Locked THEN "select" ELSE "master"
    /\ Same /\ UNCHANGED <<vars, bad>>
Tick == over' \in (IF arg.tlimit > 0 THEN {over, TRUE} ELSE {FALSE})
MMaster ==
    /\ pc = "master"
    /\ IF par.span \/ par.per > 0
       THEN /\ MasterEff(NoDuals, 0, FALSE, over)
            /\ Collect(MasterBad(NoDuals, 0, FALSE, over))
       ELSE \E d \in DualSet :
            /\ MasterEff(d[1], d[2] \div 10, FALSE, over)
            /\ Collect(MasterBad(d[1], d[2] \div 10, FALSE, over))
    /\ pc' = "price" /\ Tick /\ UNCHANGED calls
(* an improving route enters the pool *)
Candidates == IF par.span \/ par.per > 0 THEN {c \in AllRoutes : Wanted(c)} \ pool ELSE Improving
MPrice ==
    /\ pc = "price"
    /\ \E c \in Candidates : Collect(ColumnBad(c) \cup Flag(c \in pool, "again")) /\ ColumnEff(c)
    /\ pc' = "more" /\ Tick /\ UNCHANGED calls
(* no route improves (without duals: at any time) *)
MNone ==
    /\ pc = "price"
    /\ Candidates = {} \/ par.span \/ par.per > 0 \/ Bug = "early"
    /\ Collect(StopBad(FALSE)) /\ StopEff(FALSE)
    /\ pc' = "end" /\ Tick /\ UNCHANGED calls
Limit == (over /\ Bug # "late") \/ (arg.maxiter > 0 /\ nrel >= arg.maxiter /\ Bug # "iters")
MMore ==
    /\ pc = "more"
    /\ Collect(StopBad(TRUE)) /\ StopEff(TRUE)
    /\ pc' = IF Limit THEN "end" ELSE "master"
    /\ Same
MEnd ==
    /\ pc = "end"
    /\ pc' = IF arg.dive THEN "dive" ELSE "select"
    /\ Same /\ UNCHANGED <<vars, bad>>
(* diving: the duals are those of a restricted problem; any new route may come *)
MDive ==
    /\ pc = "dive"
    /\ MasterEff(NoDuals, relaxed, TRUE, over) /\ Collect(MasterBad(NoDuals, relaxed, TRUE, over))
    /\ pc' = "dprice" /\ Tick /\ UNCHANGED calls
MDPrice ==
    /\ pc = "dprice"
    /\ \/ /\ \E c \in {x \in AllRoutes : Wanted(x)} \ pool : Collect(ColumnBad(c)) /\ ColumnEff(c)
          /\ pc' = IF (over /\ Bug # "late") \/ (arg.maxiter > 0 /\ nrel >= arg.maxiter) THEN "select" ELSE "dive"
       \/ UNCHANGED <<vars, bad>> /\ pc' = "select"
    /\ Same
MSelect ==
    /\ pc = "select"
    /\ LET low == Min({ValueOf(s) : s \in Legal})
           cands == IF Bug = "worst" THEN Legal ELSE {s \in Legal : ValueOf(s) = low}
           after == [checked |-> TRUE, graph |-> IF Bug = "input" THEN [inst EXCEPT !.n = 0] ELSE inst]
       IN  IF Legal = {} THEN Collect(RaiseBad(FALSE)) /\ RaiseEff
           ELSE \E out \in Answers(cands) : Collect(ReturnBad(out, after)) /\ ReturnEff(out)
    /\ pc' = "done" /\ Same
MDone == pc = "done" /\ calls = MaxCalls /\ UNCHANGED mvars
(* the mistake of keeping the candidates of the previous call *)
MLeak ==
    /\ Bug = "leak" /\ pc = "done" /\ calls < MaxCalls
    /\ \E P \in Pars(inst) : \E A \in {x \in Argset(inst, P) : x.defect = "none"} :
         /\ inst' = inst /\ par' = P /\ arg' = A /\ phase' = "seed" /\ nseed' = 0
         /\ tab' = RouteTable(inst, P) /\ best' = BestOf(inst, P, tab')
    /\ relaxed' = NONE /\ nrel' = 0 /\ late' = [main |-> 0, dive |-> 0] /\ duals' = NoDuals
    /\ conv' = FALSE /\ answer' = NoAnswer
    /\ UNCHANGED <<pool, hist, bad>>
    /\ calls' = calls + 1 /\ over' = FALSE /\ pc' = "check"

MNext == MCall \/ MRefuse \/ MRepair \/ MAccept \/ MHeur \/ MSeed \/ MSeeded \/ MMaster \/ MPrice \/ MNone
         \/ MMore \/ MEnd \/ MDive \/ MDPrice \/ MSelect \/ MDone \/ MLeak
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(MNext)

---------------------------------------------------------------------------
(* The clauses of the property are never violated; nothing else is either *)
(* in the design without a planted mistake                                 *)
Holds == IF Bug = "none" THEN bad = {} ELSE bad \cap Scope(Prop) = {}
(* what makes column generation terminate: priced routes are new, since no *)
(* candidate has a negative reduced cost for the duals in force            *)
Fresh == pc = "price" /\ duals.ok => \A c \in pool : ReducedCost(c) >= 0
(* weak duality: the relaxed value never exceeds the best selection so far *)
Bound == pc = "price" /\ duals.ok /\ Plain /\ ~par.span /\ par.per = 0 /\ tab # <<>>
             => relaxed <= Plus(BestOf(inst, par, PoolTable(inst, pool)), 0)
Terminates == <>(pc = "done" /\ calls = MaxCalls)
=============================================================================
