------------------------------ MODULE Profiles ------------------------------
(***************************************************************************)
(* For each property: which sessions to generate (probabilities, in        *)
(* percent, of the features of a scenario) and which clauses decide it.    *)
(***************************************************************************)
EXTENDS Integers, TLC

(* Every profile has a little of everything, so that options are combined *)
Base == [cap |-> 50, stops |-> 25, dur |-> 20, tw |-> 20, pd |-> 6, dc |-> 10, mixed |-> 18,
         fixed |-> 25, nv |-> 12, all |-> 20, drop |-> 6, per |-> 4, span |-> 4, pre |-> 6,
         prefull |-> 50, init |-> 15, heur |-> 4, maxit |-> 15, tlim |-> 3, greedy |-> 18,
         dive |-> 15, lp |-> 35, elem |-> 20, sparse |-> 35, metric |-> 35, frac |-> 25,
         nodepot |-> 5, big |-> 15, steps |-> 12, defect |-> 0, bigmax |-> 10, nmin |-> 2,
         nmax |-> 5, many |-> 0, again |-> 40, fdem |-> 15]

RouteClauses == {"path", "nonempty", "simple", "type", "cap", "stops", "dur", "tw", "pd", "dc"}
PlanClauses == {"cover", "freq", "drop", "fleet", "useall", "lockfull", "lockpart", "sched"}
ValueClauses == {"cost", "value", "dropval", "spanval"}
ReportClauses == {"load", "nodeload", "durrep", "arr", "dep"}
AllClauses == RouteClauses \cup PlanClauses \cup ValueClauses \cup ReportClauses
              \cup {"geopt", "leinit", "heurle", "poolbest", "dropmax", "infeas", "dual", "lb", "stale", "mono",
                    "colpath", "colfeas", "colcost", "colneg", "iters", "late", "input", "exc", "noexc"}

Profile(p) ==
    CASE p = "C01" -> [heur |-> 8, drop |-> 0, pd |-> 10, sparse |-> 50, tlim |-> 5, nv |-> 20] @@ Base
      [] p = "C02" -> [fdem |-> 35, cap |-> 100, mixed |-> 25, tw |-> 15, dc |-> 0, heur |-> 10, greedy |-> 30] @@ Base
      [] p = "C03" -> [stops |-> 100, cap |-> 40, heur |-> 10, greedy |-> 30, pd |-> 10] @@ Base
      [] p = "C04" -> [dur |-> 100, tw |-> 10, dc |-> 5, heur |-> 15, greedy |-> 30, metric |-> 25, pd |-> 10] @@ Base
      [] p = "C05" -> [tw |-> 100, dc |-> 15, pd |-> 15, stops |-> 15, dur |-> 10] @@ Base
      [] p = "C06" -> [pd |-> 100, tw |-> 30, stops |-> 20, dur |-> 15, lp |-> 100, fixed |-> 20, big |-> 20] @@ Base
      [] p = "C07" -> [dc |-> 100, cap |-> 100, mixed |-> 45, tw |-> 10, stops |-> 15, lp |-> 50] @@ Base
      [] p = "C08" -> [mixed |-> 100, cap |-> 90, fixed |-> 50, dc |-> 15, tw |-> 15, nv |-> 10] @@ Base
      [] p = "C09" -> [nv |-> 100, all |-> 35, mixed |-> 30, drop |-> 10, pre |-> 15, prefull |-> 100, cap |-> 60] @@ Base
      [] p = "C10" -> [drop |-> 100, nv |-> 35, mixed |-> 20, tw |-> 20, cap |-> 60, pd |-> 5] @@ Base
      [] p = "C11" -> [per |-> 100, cap |-> 70, mixed |-> 25, nv |-> 45, tlim |-> 12, nmax |-> 4, big |-> 10] @@ Base
      [] p = "C12" -> [pre |-> 100, prefull |-> 45, nmin |-> 3, heur |-> 10, tw |-> 20, maxit |-> 0, big |-> 0] @@ Base
      [] p = "C13" -> [fixed |-> 55, mixed |-> 25, pre |-> 20, drop |-> 10, heur |-> 10, frac |-> 50, steps |-> 25, pd |-> 5, nodepot |-> 10] @@ Base
      [] p = "C14" -> [fdem |-> 30, cap |-> 60, dur |-> 40, tw |-> 35, dc |-> 25, pd |-> 10, mixed |-> 20, heur |-> 8, pre |-> 8] @@ Base
      [] p = "C15" -> [init |-> 35, drop |-> 10, nv |-> 10, pd |-> 10, big |-> 5, nodepot |-> 0, steps |-> 60, again |-> 70, heur |-> 30, mixed |-> 15, tw |-> 10, dc |-> 5, maxit |-> 25] @@ Base
      [] p = "C16" -> [greedy |-> 0, dive |-> 0, maxit |-> 0, big |-> 0, nodepot |-> 0, metric |-> 60, nv |-> 40, all |-> 15, drop |-> 12, mixed |-> 40, pd |-> 8, lp |-> 40, per |-> 0, span |-> 0, pre |-> 0, tlim |-> 0, heur |-> 0] @@ Base
      [] p = "C17" -> [steps |-> 100, pre |-> 15, heur |-> 15, drop |-> 15, nv |-> 15, per |-> 5, span |-> 5, init |-> 20, maxit |-> 15, big |-> 0, nmax |-> 4, defect |-> 20] @@ Base
      [] p = "C18" -> [defect |-> 100, pd |-> 12, mixed |-> 25, big |-> 5, heur |-> 8, init |-> 25, pre |-> 15, drop |-> 5, nv |-> 5] @@ Base
      [] p = "C19" -> [drop |-> 8, nv |-> 15, all |-> 25, pd |-> 12, per |-> 6, pre |-> 8, span |-> 4, dive |-> 30, greedy |-> 30, lp |-> 40, big |-> 25, nmin |-> 1] @@ Base
      [] p = "C20" -> [heur |-> 100, cap |-> 60, stops |-> 40, dur |-> 45, fixed |-> 40, sparse |-> 50, pre |-> 15, prefull |-> 100, big |-> 55, bigmax |-> 14, tw |-> 0, dc |-> 0, mixed |-> 0, nodepot |-> 10] @@ Base
      [] p = "C21" -> [maxit |-> 45, tlim |-> 70, pd |-> 12, drop |-> 8, dive |-> 25, lp |-> 45, per |-> 6, span |-> 8, greedy |-> 20, big |-> 20] @@ Base
      [] p = "C22" -> [greedy |-> 35, lp |-> 45, pd |-> 12, drop |-> 8, nv |-> 8, big |-> 20, maxit |-> 0, dive |-> 5] @@ Base
      [] p = "C23" -> [span |-> 100, drop |-> 12, nv |-> 20, tlim |-> 8, tw |-> 15, mixed |-> 10, init |-> 35, nmax |-> 5, big |-> 8, many |-> 4] @@ Base

Scope(p) ==
    CASE p = "C01" -> {"path", "nonempty", "simple", "cover"}
      [] p = "C02" -> {"cap"}
      [] p = "C03" -> {"stops"}
      [] p = "C04" -> {"dur"}
      [] p = "C05" -> {"tw"}
      [] p = "C06" -> {"pd"}
      [] p = "C07" -> {"dc", "cap"}
      [] p = "C08" -> {"type", "cap", "cost"}
      [] p = "C09" -> {"fleet", "useall", "infeas"}
      [] p = "C10" -> {"drop", "dropval", "dropmax", "cover"}
      [] p = "C11" -> {"freq", "sched", "simple"}
      [] p = "C12" -> {"lockfull", "lockpart", "cover"}
      [] p = "C13" -> ValueClauses
      [] p = "C14" -> ReportClauses
      [] p = "C15" -> {"geopt", "leinit", "heurle", "poolbest"}
      [] p = "C16" -> {"dual", "lb", "stale", "mono"}
      [] p = "C17" -> AllClauses
      [] p = "C18" -> {"exc"}
      [] p = "C19" -> {"noexc"}
      [] p = "C20" -> RouteClauses \cup PlanClauses \cup ValueClauses \cup {"noexc"}
      [] p = "C21" -> RouteClauses \cup PlanClauses \cup ValueClauses \cup {"iters", "late", "noexc"}
      [] p = "C22" -> {"colpath", "colfeas", "colcost", "colonce", "colneg"}
      [] p = "C23" -> {"spanval", "geopt", "leinit", "poolbest", "noexc"} \cup RouteClauses \cup PlanClauses
=============================================================================
