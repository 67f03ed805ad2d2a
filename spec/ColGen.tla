------------------------------ MODULE ColGen ------------------------------
(***************************************************************************)
(* The life of a problem object: the user sets parameters and calls        *)
(* solve(); the library checks the input, seeds a pool of candidate routes *)
(* and then alternates between the relaxed master problem (which yields    *)
(* dual prices) and pricing (which adds routes of negative reduced cost),  *)
(* until no route improves or a limit is hit; the final integer master     *)
(* problem selects the answer out of the pool.                             *)
(*                                                                         *)
(* Each step has                                                           *)
(*   ...Bad : the set of clauses the step violates, and                    *)
(*   ...Eff : its effect on the state.                                     *)
(* The design model (Next) only takes steps whose ...Bad is empty; the     *)
(* trace specification (Trace.tla) takes the recorded steps of the real    *)
(* code and collects the violated clauses.                                 *)
(*                                                                         *)
(* Dual prices and reduced costs are in thousandths.                       *)
(***************************************************************************)
EXTENDS VRP

VARIABLES
    inst,     \* the instance (the user's graph)
    par,      \* parameters in force at the current call
    arg,      \* arguments of the current call
    phase,    \* "idle", "seed", "price", "dive", "done"
    pool,     \* set of candidate routes [nodes, type, cost, elem]
    nseed,    \* number of candidate routes before the first master problem
    duals,    \* [v: seq of customer duals, f: seq of fleet duals, ok: usable]
    relaxed,  \* value of the last relaxed master problem (no diving)
    nrel,     \* number of relaxed master problems solved so far
    late,     \* number of iterations started after the time limit, per phase
    conv,     \* TRUE: column generation has stopped by itself
    tab,      \* route table of the instance (small instances), or <<>>
    best,     \* true optimum (small instances), or NONE
    answer,   \* the last outcome of a call
    hist      \* heuristic value and the parameters it belongs to

vars == <<inst, par, arg, phase, pool, nseed, duals, relaxed, nrel, late, conv, tab, best,
          answer, hist>>

NoDuals == [v |-> <<>>, f |-> <<>>, ok |-> FALSE]
NoAnswer == [kind |-> "none", value |-> 0, routes |-> <<>>, sched |-> <<>>]
NoHist == [value |-> NONE, par |-> <<>>]

Small(I) == I.n <= ENUM
Cheap(I) == \A k \in 1..I.K : \A i \in 1..(I.n + 2) : \A j \in 1..(I.n + 2) :
                I.has[i][j] = 1 => ~Huge(I.cost[k][i][j])

---------------------------------------------------------------------------
(* A call of solve(): nothing of previous calls matters *)
CallEff(I, P, A) ==
    /\ inst' = I /\ par' = P /\ arg' = A
    /\ phase' = "seed"
    /\ pool' = {} /\ nseed' = 0
    /\ duals' = NoDuals /\ relaxed' = NONE /\ nrel' = 0 /\ late' = [main |-> 0, dive |-> 0]
    /\ conv' = FALSE
    /\ tab' = IF Small(I) /\ Cheap(I) /\ A.defect = "none" THEN RouteTable(I, P) ELSE <<>>
    /\ best' = IF tab' # <<>> THEN BestOf(I, P, tab') ELSE NONE
    /\ answer' = NoAnswer
    /\ UNCHANGED hist

(* The library refuses the problem, or fails *)
(* (crash: by an error that no check of the input raises on purpose) *)
RaiseBad(crash) ==
    IF arg.defect # "none" THEN {}
    ELSE IF Hopeless(inst, par) THEN {}
    ELSE IF Fleet(par) /\ ~crash THEN {}     \* price-and-branch may miss tight fleets
    ELSE {"noexc"}
RaiseEff ==
    /\ phase' = "done"
    /\ answer' = [NoAnswer EXCEPT !.kind = "exc"]
    /\ UNCHANGED <<inst, par, arg, pool, nseed, duals, relaxed, nrel, late, conv, tab, best, hist>>

---------------------------------------------------------------------------
(* A candidate route c enters the pool *)
DualSum(d, c) == FoldLeft(LAMBDA x, v : x + d.v[v], 0, Customers(c.nodes))
DualOf(d, k) == IF d.f = <<>> THEN 0 ELSE d.f[k]
FleetDual(k) == DualOf(duals, k)
Reduced(d, c) == c.cost * 10 - DualSum(d, c) - DualOf(d, c.type)
ReducedCost(c) == Reduced(duals, c)
RCTOL == 15
Plain == arg.pre = <<>>
(* (known finding: arcs used twice by a non elementary column are charged once) *)
OnceCost(c) ==
    LET arcs == {<<c.nodes[i], c.nodes[i + 1]>> : i \in 1..(Len(c.nodes) - 1)}
    IN  FoldSet(LAMBDA a, x : x + ArcCost(inst, c.type, a[1], a[2]), par.fixed[c.type], arcs)
ColumnBad(c) ==
    IF ~WellFormed(inst, c.nodes) \/ c.extra # 0 THEN {"colpath"}
    ELSE Flag(c.elem /\ Plain /\ RouteBad(inst, par, c.nodes, c.type) # {}, "colfeas")
    \cup Flag(c.type \notin 1..inst.K, "colfeas")
    \cup IF c.type \notin 1..inst.K \/ ~Plain THEN {}
         ELSE (IF Near(c.cost, RouteCost(inst, par, c.type, c.nodes), TOL) THEN {}
               ELSE IF ~c.elem /\ Near(c.cost, OnceCost(c), TOL) THEN {"colonce"} ELSE {"colcost"})
         \cup IF phase = "price" /\ duals.ok /\ ~par.span /\ ~Huge(c.cost)
              THEN Flag(ReducedCost(c) > RCTOL, "colneg")
              ELSE {}
ColumnEff(c) ==
    /\ pool' = pool \cup {c}
    /\ nseed' = IF phase = "seed" THEN nseed + 1 ELSE nseed
    /\ UNCHANGED <<inst, par, arg, phase, duals, relaxed, nrel, late, conv, tab, best, answer, hist>>

---------------------------------------------------------------------------
(* The relaxed master problem is solved (dive: with some columns fixed) *)
(* it is optimal over the candidates so far: their reduced costs are not        *)
(* negative, and one more candidate never makes it worse                        *)
DUALTOL == 20
Steady == Plain /\ ~par.span /\ arg.tlimit = 0
Sane(x) == x > -BIG \div 2 /\ x < BIG \div 2
MasterBad(d, value, dive, past) ==
         Flag(arg.maxiter > 0 /\ nrel + 1 > arg.maxiter + (IF arg.dive THEN 1 ELSE 0), "iters")
    \cup Flag(past /\ ~dive /\ late.main >= 1, "late")
    \cup Flag(past /\ dive /\ late.dive >= 1, "late")
    \cup Flag(/\ Steady /\ ~dive /\ d.ok
              /\ \E c \in pool : c.elem /\ ~Huge(c.cost) /\ Reduced(d, c) < -DUALTOL, "stale")
    \cup Flag(Steady /\ ~dive /\ Sane(value) /\ Sane(relaxed) /\ value > relaxed + TOL, "mono")
MasterEff(d, value, dive, past) ==
    /\ phase' = IF dive THEN "dive" ELSE "price"
    /\ duals' = d
    /\ relaxed' = IF dive THEN relaxed ELSE value
    /\ nrel' = nrel + 1
    /\ late' = IF past /\ dive THEN [late EXCEPT !.dive = @ + 1]
               ELSE IF past THEN [late EXCEPT !.main = @ + 1] ELSE late
    /\ UNCHANGED <<inst, par, arg, pool, nseed, conv, tab, best, answer, hist>>

---------------------------------------------------------------------------
(* Pricing is over; more: an improving route has been found *)
ConvergenceDue ==
    /\ phase = "price" /\ tab # <<>>
    /\ Plain /\ ~par.span /\ par.per = 0 /\ ~arg.greedy /\ arg.tlimit = 0
SetDual(S) == FoldLeft(LAMBDA x, v : x + duals.v[v], 0, SetToSeq(S))
LBTOL == 5
StopBad(more) ==
    IF more \/ ~ConvergenceDue THEN {}
    ELSE Flag(duals.ok /\ \E k \in 1..inst.K : \E S \in DOMAIN tab[k] :
                 /\ tab[k][S] < INF
                 /\ tab[k][S] * 10 - SetDual(S) - FleetDual(k) < -DUALTOL, "dual")
    \cup Flag(best < BIG \div 2 /\ relaxed > best + LBTOL, "lb")
StopEff(more) ==
    /\ conv' = IF phase = "price" THEN ~more ELSE conv
    /\ UNCHANGED <<inst, par, arg, phase, pool, nseed, duals, relaxed, nrel, late, tab, best, answer, hist>>

---------------------------------------------------------------------------
(* The call returns an answer *)
Start == IF arg.init # <<>> THEN StartValue(inst, par, arg.init)
         ELSE IF TripsAreStart(par) THEN StartValue(inst, par, OwnTrips(inst, par))
         ELSE INF
OPTTOL == 5
ReturnBad(out, after) ==
    IF arg.defect # "none" THEN {"exc"}
    ELSE IF Hopeless(inst, par) /\ par.drop = 0 THEN {"exc"}
    ELSE AnswerBad(inst, par, arg, out)
    \cup Flag(after.checked /\ after.graph # inst, "input")
    \cup (IF best = NONE \/ arg.heur THEN {}
          ELSE IF best >= INF THEN {"infeas"}
          ELSE Flag(out.value < best - OPTTOL, "geopt"))
    \cup (IF arg.heur \/ ~Plain \/ par.per > 0 THEN {}
          ELSE Flag(out.value > Plus(Start, TOL), "leinit")
          \cup Flag(par.drop > 0 /\ ~par.all /\ out.value > inst.n * par.drop + TOL, "dropmax")
          \cup Flag(/\ hist.value # NONE /\ hist.par = par /\ ~TripsAreStart(par) /\ arg.init = <<>>
                    /\ ~Fleet(par) /\ out.value > hist.value + TOL, "heurle"))
    \cup (IF arg.heur \/ ~Plain \/ best = NONE \/ pool = {} \/ arg.tlimit > 0 THEN {}
          ELSE Flag(out.value > Plus(BestOf(inst, par, PoolTable(inst, pool)), OPTTOL), "poolbest"))
ReturnEff(out) ==
    /\ phase' = "done"
    /\ answer' = out
    /\ hist' = IF arg.heur /\ Plain THEN [value |-> out.value, par |-> par] ELSE hist
    /\ UNCHANGED <<inst, par, arg, pool, nseed, duals, relaxed, nrel, late, conv, tab, best>>

=============================================================================
