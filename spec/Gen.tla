-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Random sessions of a user with a problem object: an instance, then one  *)
(* or more calls of solve() with parameters and arguments in between.      *)
(* Run with "tlc -simulate"; each behaviour is one session, written as a   *)
(* line of JSON.  All instances are built such that every customer's own   *)
(* trip is feasible, except for a deliberate defect.                       *)
(***************************************************************************)
EXTENDS VRP, Profiles, Json, IOUtils, CSV

Prop == IOEnv.VPROP
Out == IOEnv.VOUT
Prof == Profile(Prop)

VARIABLES st, g
Pick(S) == RandomElement(S)
Pct(p) == RandomElement(1..100) <= p
Pk(p, S, d) == IF Pct(p) THEN Pick(S) ELSE d

LAST == 40
GInit == st = 1 /\ g = [steps |-> <<>>, left |-> 0, nth |-> 1]

---------------------------------------------------------------------------
(* 1. features *)
(* (the parameter keeps TLC from evaluating it once and for all) *)
Flags(x) ==
    [cap |-> Pct(Prof.cap), stops |-> Pct(Prof.stops), dur |-> Pct(Prof.dur), tw |-> Pct(Prof.tw),
     pd |-> Pct(Prof.pd), dc |-> Pct(Prof.dc), mixed |-> Pct(Prof.mixed), fixed |-> Pct(Prof.fixed),
     nv |-> Pct(Prof.nv), all |-> Pct(Prof.all), drop |-> Pct(Prof.drop), per |-> Pct(Prof.per),
     span |-> Pct(Prof.span), pre |-> Pct(Prof.pre), init |-> Pct(Prof.init), heur |-> Pct(Prof.heur),
     maxit |-> Pct(Prof.maxit), tlim |-> Pct(Prof.tlim), greedy |-> Pct(Prof.greedy),
     dive |-> Pct(Prof.dive), lp |-> Pct(Prof.lp), elem |-> Pct(Prof.elem), defect |-> Pct(Prof.defect),
     prefull |-> Pct(Prof.prefull), many |-> Pct(Prof.many), nth |-> x.nth]
(* make them compatible, forgetting optional ones *)
Compat(f) ==
    LET pd == f.pd
        mixed == f.mixed /\ ~pd
        dc == f.dc /\ ~pd
        per == f.per /\ ~pd /\ ~f.many
        span == f.span /\ ~per
        heur == f.heur /\ ~pd /\ ~mixed /\ ~per /\ ~span
        pre == f.pre /\ ~pd /\ ~per /\ ~span
        drop == f.drop /\ ~per /\ ~pre /\ ~heur
        tw == f.tw /\ ~heur
        dc2 == dc /\ ~heur
        nv == f.nv /\ ~heur /\ ~(f.many /\ span)
    IN  [f EXCEPT !.pd = pd, !.mixed = mixed, !.dc = dc2, !.per = per, !.span = span, !.heur = heur,
                  !.pre = pre, !.drop = drop, !.tw = tw, !.nv = nv /\ (pre => f.prefull),
                  !.all = f.all /\ nv /\ ~per /\ ~pre /\ ~drop,
                  !.cap = f.cap \/ pd \/ dc2, !.fixed = f.fixed \/ (mixed /\ ~f.cap),
                  !.init = f.init /\ ~per /\ ~heur /\ ~pre,
                  !.lp = f.lp \/ pd, !.maxit = f.maxit /\ ~pre, !.tlim = f.tlim /\ ~pre,
                  !.greedy = f.greedy, !.dive = f.dive,
                  !.prefull = f.prefull \/ heur \/ nv]
(* later calls on the same graph cannot change what the graph is for *)
Keep(f, old) == [f EXCEPT !.pd = old.pd, !.mixed = old.mixed]
(* integer programs for pricing and schedules take minutes on larger graphs *)
Small(f) == f.lp /\ ~((f.cap \/ f.stops) /\ ~f.dive)
Tame(x, f) == [f EXCEPT !.lp = @ /\ (f.pd \/ x.n <= 5 \/ (x.n = 6 /\ ~Small(f))), !.per = @ /\ x.n <= 6]

(* or it is a call with the same parameters and other arguments *)
Again(f, old) ==
    [old EXCEPT !.heur = f.heur /\ ~old.heur /\ ~old.tw /\ ~old.dc /\ ~old.per /\ ~old.span /\ ~old.drop
                                /\ ~old.nv /\ ~old.pd /\ ~old.mixed,
                !.maxit = f.maxit, !.tlim = f.tlim, !.greedy = f.greedy, !.dive = f.dive,
                !.elem = f.elem, !.init = f.init, !.pre = f.pre /\ ~old.drop /\ ~old.nv,
                !.defect = f.defect]

(* 2. sizes *)
Sizes(f) ==
    [n |-> IF f.pd THEN 2 * (IF Pct(Prof.big) THEN 3 ELSE Pick(1..2))
           ELSE IF f.many THEN Pick(50..56)
           ELSE IF Pct(Prof.big) /\ ~f.pre /\ ~f.init /\ ~Small(f) THEN Pick(6..(IF f.lp \/ f.per THEN 6 ELSE Prof.bigmax))
           ELSE Pick(Prof.nmin..Prof.nmax),
     K |-> IF f.mixed THEN Pick(2..3) ELSE 1,
     metric |-> Pct(Prof.metric),
     dens |-> IF Pct(Prof.sparse) THEN Pick({15, 35, 60, 80}) ELSE 100,
     nodepot |-> Pct(Prof.nodepot) /\ ~f.mixed /\ ~f.pd /\ ~f.tw /\ ~f.dur,
     unit |-> IF Pct(Prof.frac) THEN Pick({25, 50}) ELSE 100,
     cmax |-> Pick({2, 12, 12, 40, 300}), tmax |-> Pick({3, 9, 20}),
     dmin |-> Pick({0, 1, 1}), dmax |-> Pick({1, 4, 7, 7, 20}),
     svc |-> Pick({0, 2, 4, 8}), fmax |-> Pick(1..4), same |-> Pct(30),
     lab |-> Pick({"int", "int", "str", "mix", "off", "zero", "space", "hyphen"}),
     du |-> IF Pct(Prof.fdem) THEN Pick({2, 4}) ELSE 1, depdem |-> IF Pct(8) THEN Pick(1..9) ELSE 0,
     skip |-> Pct(10), seed |-> Pick(1..1000000)]

(* 3. arcs *)
Nodes(h) == 1..(h.n + 2)              \* matrix indices: node + 1
IsC(h, x) == x \in 2..(h.n + 1)
Arcs(h, f) ==
    TLCEval([i \in Nodes(h) |-> TLCEval([j \in Nodes(h) |->
        IF i = 1 /\ j = h.n + 2 THEN (IF h.skip THEN 1 ELSE 0)
        ELSE IF i = j \/ i = h.n + 2 \/ j = 1 THEN 0
        ELSE IF i = 1 \/ j = h.n + 2 THEN (IF h.nodepot /\ Pct(20) THEN 2 ELSE 1)
        ELSE IF f.pd /\ i % 2 = 0 /\ j = i + 1 THEN 1
        ELSE IF f.many THEN (IF Pct(8) THEN 1 ELSE 0)
        ELSE IF Pct(h.dens) THEN 1 ELSE 0])])
Points(h) == TLCEval([i \in Nodes(h) |-> <<Pick(0..10), Pick(0..10)>>])
Dist(h, i, j) == LET a == IF i = h.n + 2 THEN h.pts[1] ELSE h.pts[i]
                     b == IF j = h.n + 2 THEN h.pts[1] ELSE h.pts[j]
                 IN  (Abs(a[1] - b[1]) + Abs(a[2] - b[2])) * 100
(* 4. costs and times (2: a missing depot arc, added by the library) *)
Times(h) ==
    TLCEval([i \in Nodes(h) |-> TLCEval([j \in Nodes(h) |->
        IF h.arcs[i][j] # 1 THEN 0
        ELSE IF h.metric THEN Dist(h, i, j) ELSE Pick(0..h.tmax) * h.unit])])
Costs(h) ==
    TLCEval([k \in 1..h.K |-> TLCEval([i \in Nodes(h) |-> TLCEval([j \in Nodes(h) |->
        IF h.arcs[i][j] = 0 THEN 0
        ELSE IF h.arcs[i][j] = 2 THEN BIG
        ELSE IF h.metric /\ (h.same \/ h.K = 1) THEN Dist(h, i, j) * (IF h.same THEN 1 ELSE k)
        ELSE IF h.K > 1 /\ h.same THEN h.times[i][j] * k + 100
        ELSE Pick(0..h.cmax) * h.unit])])])
(* 5. node attributes *)
Attrs(h, f) ==
    [dem |-> TLCEval([v \in 1..h.n |-> IF f.pd /\ v % 2 = 0 THEN 0
                                       ELSE Pick(Max2(h.dmin, IF f.pd THEN 1 ELSE 0)..h.dmax)]),
     col |-> TLCEval([v \in 1..h.n |-> Pick(0..h.dmax)]),
     svc |-> TLCEval([v \in 1..h.n |-> IF h.svc = 0 THEN 0 ELSE Pick(0..h.svc) * h.unit]),
     lo |-> TLCEval([v \in 1..h.n |-> Pick(0..20) * 100]),
     slack |-> TLCEval([v \in 1..h.n |-> Pick({0, 1, 3, 8, 20, 40}) * 100]),
     freq |-> TLCEval([v \in 1..h.n |-> Pick(IF h.n > 5 THEN {1, 1, 2} ELSE {1, 1, 2, h.fmax})]),
     \* windows and limits that some route just meets or just misses
     via |-> TLCEval([v \in 1..h.n |-> IF Pct(40) THEN Pick(1..h.n) ELSE v]),
     miss |-> TLCEval([v \in 1..h.n |-> Pick({0, 1}) * h.unit]),
     last |-> IF Pct(40) THEN Pick(1..h.n) ELSE 0,
     srcLo |-> Pick({0, 0, 0, 2, 7}) * 100,
     sinkSlack |-> Pick({-1, -1, 0, 3, 10, 30})]
Instance(h, f) ==
    LET dem == IF f.pd THEN [v \in 1..h.n |-> IF v % 2 = 0 THEN -h.dem[v - 1] ELSE h.dem[v]] ELSE h.dem
        req == [v \in 1..h.n |-> IF f.pd /\ v % 2 = 1 THEN v + 1 ELSE 0]
        T(i, j) == h.times[i + 1][j + 1]
        a1 == [v \in 1..h.n |-> Max2(h.srcLo + T(0, v), h.lo[v])]
        arr == [v \in 1..h.n |-> IF f.pd /\ v % 2 = 0
                                 THEN Max2(a1[v - 1] + h.svc[v - 1] + T(v - 1, v), h.lo[v]) ELSE a1[v]]
        end == Max({arr[v] + h.svc[v] + T(v, h.n + 1) : v \in 1..h.n})
        \* arrival at v after visiting u, if there is such an arc
        Via(u, v) == IF u = v \/ h.arcs[u + 1][v + 1] # 1 THEN 0
                     ELSE Max2(arr[u] + h.svc[u] + T(u, v), h.lo[v])
        up == [v \in 1..h.n |-> IF h.via[v] = v THEN arr[v] + h.slack[v]
                                ELSE Max2(arr[v], Via(h.via[v], v) - h.miss[v])]
        fin == IF h.last = 0 THEN 0
               ELSE LET u == h.via[h.last]
                        v == h.last
                        w == IF u = v THEN (v % h.n) + 1 ELSE u
                    IN  IF Via(w, v) = 0 THEN 0 ELSE Via(w, v) + h.svc[v] + T(v, h.n + 1) - h.miss[v]
    IN  TLCEval([n |-> h.n, K |-> h.K,
         has |-> [i \in Nodes(h) |-> [j \in Nodes(h) |-> IF h.arcs[i][j] = 0 THEN 0 ELSE 1]],
         cost |-> h.costs, time |-> h.times, dem |-> dem, col |-> h.col, svc |-> h.svc,
         lo |-> h.lo, up |-> up, freq |-> h.freq, req |-> req,
         du |-> h.du, depdem |-> h.depdem, srcLo |-> h.srcLo, sinkUp |-> IF h.sinkSlack < 0 THEN 0
                   ELSE IF h.last > 0 THEN Max2(end, fin) ELSE end + h.sinkSlack * 100])

(* 6. parameters *)
TripDur(I, f, v) ==
    IF f.pd /\ v % 2 = 1 THEN Duration(I, <<0, v, v + 1, Snk(I)>>)
    ELSE IF f.pd THEN Duration(I, <<0, v - 1, v, Snk(I)>>)
    ELSE Duration(I, <<0, v, Snk(I)>>)
Heaviest(I, f) == Max({1} \cup {I.dem[v] : v \in Cust(I)}
                      \cup (IF f.dc THEN {I.col[v] : v \in Cust(I)} ELSE {}))
Par0(I, f) ==
    [caps |-> TLCEval([k \in 1..I.K |-> Pick(0..14)]), big |-> Pick(1..I.K), stops |-> Pick(1..4),
     some |-> TLCEval([k \in 1..I.K |-> {Pick(Cust(I)), Pick(Cust(I)), Pick(Cust(I))}]),
     off |-> TLCEval([k \in 1..I.K |-> Pick({0, 1})]), tcap |-> TLCEval([k \in 1..I.K |-> Pct(45)]),
     tdur |-> Pct(45), path |-> <<Pick(Cust(I)), Pick(Cust(I)), Pick(Cust(I))>>,
     durx |-> Pick({0, 1, 4, 9, 20, 40}), dropx |-> Pick({100, 150, 500, 2000, 5000, 100000}),
     fixx |-> TLCEval([k \in 1..I.K |-> Pick({0, 100, 150, 500, 2000})]),
     nvx |-> TLCEval([k \in 1..I.K |-> IF I.K > 1 /\ Pct(15) THEN 0 ELSE Pick(1..Max2(1, Min2(4, I.n)))]), perx |-> Max2(Max({I.freq[v] : v \in Cust(I)}), Pick(IF I.n > 5 THEN 2..3 ELSE 2..4))]
Params(I, f, r) ==
    LET q == Heaviest(I, f)
        d == Max({TripDur(I, f, v) : v \in Cust(I)})
        full(k) == FoldSet(LAMBDA v, x : x + Max2(0, IF f.dc /\ r.off[k] = 0 THEN I.col[v] ELSE I.dem[v]),
                           0, r.some[k])
        load(k) == IF r.tcap[k] THEN (full(k) - r.off[k]) \div I.du ELSE r.caps[k]
        least == (q + I.du - 1) \div I.du
        cs == IF r.path[1] = r.path[2] THEN <<r.path[1]>>
              ELSE IF r.path[3] \in {r.path[1], r.path[2]} THEN <<r.path[1], r.path[2]>> ELSE r.path
        long == (Duration(I, Trip(I, cs)) \div 100) * 100 - r.off[1] * 100
    IN  [cap |-> IF ~f.cap THEN <<>>
                 ELSE [k \in 1..I.K |-> I.du * (IF k = r.big
                                               THEN (IF r.tcap[k] THEN Max2(least, load(k)) ELSE least + load(k))
                                               ELSE Max2(1, load(k)))],
         stops |-> IF ~f.stops THEN 0 ELSE IF f.pd THEN Max2(2, r.stops) ELSE r.stops,
         dur |-> IF ~f.dur THEN 0
                 ELSE Max2(100, Max2(((d + 99) \div 100) * 100,
                                     IF r.tdur THEN long ELSE ((d + 99) \div 100 + r.durx) * 100)),
         tw |-> f.tw, pd |-> f.pd, dc |-> f.dc, mixed |-> f.mixed,
         drop |-> IF f.drop THEN r.dropx ELSE 0,
         fixed |-> [k \in 1..I.K |-> IF f.fixed THEN r.fixx[k] ELSE 0],
         nv |-> IF f.nv THEN r.nvx ELSE <<>>, all |-> f.all,
         per |-> IF f.per THEN r.perx ELSE 0, span |-> f.span]

(* 7. arguments *)
NoArg == [init |-> <<>>, pre |-> <<>>, heur |-> FALSE, maxiter |-> 0, tlimit |-> 0, dive |-> FALSE,
          greedy |-> FALSE, cspy |-> TRUE, strat |-> "BestEdges1", elem |-> FALSE, exact |-> 1,
          defect |-> "none", dv |-> 1, dk |-> 1, mode |-> "same"]
Args(I, f) ==
    [heur |-> f.heur, maxiter |-> IF f.many THEN 1 ELSE IF f.maxit THEN Pick(1..4) ELSE 0,
     tlimit |-> IF f.tlim THEN Pick(1..25) ELSE 0, dive |-> f.dive,
     greedy |-> f.greedy /\ (f.pre => f.prefull),
     cspy |-> ~f.lp \/ (f.many /\ ~f.pd), elem |-> f.elem,
     strat |-> IF f.many THEN "Exact" ELSE Pick({"Exact", "BestEdges1", "BestEdges2", "BestPaths", "Hyper"}),
     exact |-> Pick({1, 1, 2, 30}), dv |-> Pick(1..I.n), dk |-> Pick(1..I.K),
     mode |-> Pick({"same", "same", "same", "new"})] @@ NoArg
(* feasible routes over S *)
Feasible(I, P, S, lens) ==
    UNION {{q \in Orders[X] : \E k \in 1..I.K : RouteOK(I, P, Trip(I, q), k)} :
           X \in {Y \in SUBSET S : Cardinality(Y) \in lens}}
PickSeq(Q) == IF Q = {} THEN <<>> ELSE Pick(Q)
PreOf(f, q, I) ==
    IF f.prefull THEN Trip(I, q)
    ELSE Pick({q, q, q, <<0>> \o q, q \o <<Snk(I)>>})

(* 8. deliberate defects *)
Defects(h, I, P, A, f) ==
    {"graph_type", "no_source", "no_sink", "source_in", "sink_out", "no_cost", "strategy", "pre_arc",
     "stops_float", "stops_neg", "dur_float", "dur_neg", "cap_float", "cap_neg"}
    \cup (IF f.mixed THEN {"cost_scalar", "cost_dim", "heur_on"} ELSE {})
    \cup (IF f.mixed /\ P.cap # <<>> THEN {"dim_nv", "dim_fixed"} ELSE {})
    \cup (IF ~f.heur /\ ~f.pre THEN {"init_start", "init_end", "init_missing", "init_arc"} ELSE {})
    \cup (IF f.pd THEN {"pd_cspy", "pd_norequest", "heur_on"} ELSE {})
    \cup (IF f.tw \/ f.dc \/ f.per THEN {"heur_on"} ELSE {})
    \cup (IF f.drop THEN {}
          ELSE {"demand"} \cup (IF f.dc THEN {"collect"} ELSE {}))
    \* (a missing depot arc is added by the library, without a duration)
    \cup (IF f.drop \/ h.nodepot THEN {}
          ELSE {"dur_in", "dur_out", "dur_svc", "dur_sum"}
               \cup (IF f.tw THEN {"tw_early", "tw_late", "tw_svc"} ELSE {}))
SetIn(I, m, v, x) == [i \in 1..(I.n + 2) |-> [j \in 1..(I.n + 2) |->
                        IF j = v + 1 /\ I.has[i][j] = 1 THEN x ELSE m[i][j]]]
SetOut(I, m, v, x) == [i \in 1..(I.n + 2) |-> [j \in 1..(I.n + 2) |->
                        IF i = v + 1 /\ I.has[i][j] = 1 THEN x ELSE m[i][j]]]
DurOf(P) == IF P.dur > 0 THEN P.dur ELSE 3000
BreakI(I, P, A) ==
    LET v == A.dv
        d == DurOf(P)
    IN  CASE A.defect = "demand" -> [I EXCEPT !.dem[v] = (IF P.cap # <<>> THEN Max(Range2(P.cap)) ELSE 12) + A.dk]
          [] A.defect = "collect" -> [I EXCEPT !.col[v] = Max(Range2(P.cap)) + A.dk]
          [] A.defect = "dur_in" -> [I EXCEPT !.time = SetIn(I, I.time, v, d + 100)]
          [] A.defect = "dur_out" -> [I EXCEPT !.time = SetOut(I, I.time, v, d + 100)]
          [] A.defect = "dur_svc" -> [I EXCEPT !.svc[v] = d + 100]
          [] A.defect = "dur_sum" -> [I EXCEPT !.time = SetOut(I, SetIn(I, I.time, v, (d \div 300) * 100), v, (d \div 300) * 100),
                                               !.svc[v] = d - 2 * ((d \div 300) * 100) + 100]
          [] A.defect = "tw_early" -> [I EXCEPT !.time = SetIn(I, I.time, v, 1000), !.up[v] = I.srcLo + 900,
                                                !.lo[v] = 0]
          [] A.defect = "tw_late" -> [I EXCEPT !.time = SetOut(I, I.time, v, 1000), !.sinkUp = 9000,
                                                !.lo[v] = 8100, !.up[v] = 9000]
          [] A.defect = "tw_svc" -> [I EXCEPT !.svc[v] = 3000, !.sinkUp = 9000, !.lo[v] = 6100, !.up[v] = 9000]
          [] OTHER -> I
BreakP(I, P, A) ==
    LET durdef == A.defect \in {"dur_in", "dur_out", "dur_svc", "dur_sum", "dur_float", "dur_neg"}
    IN  [P EXCEPT !.dur = IF durdef THEN DurOf(P) ELSE @,
                  !.stops = IF A.defect \in {"stops_float", "stops_neg"} THEN Max2(2, @) ELSE @,
                  !.cap = IF A.defect \in {"demand", "cap_float", "cap_neg"} /\ P.cap = <<>>
                          THEN [k \in 1..I.K |-> 12] ELSE @]

---------------------------------------------------------------------------
GoodI == g.I
Stage ==
    CASE st = 1 -> [f |-> Compat(Flags(g))] @@ g
      [] st = 2 -> [left |-> IF Pct(Prof.steps) THEN Pick(1..3) ELSE 0] @@ Sizes(g.f) @@ g
      [] st = 3 -> [pts |-> Points(g), arcs |-> Arcs(g, g.f)] @@ g
      [] st = 4 -> [times |-> Times(g)] @@ g
      [] st = 5 -> [costs |-> Costs(g)] @@ Attrs(g, g.f) @@ g
      [] st = 6 -> [I |-> Instance(g, g.f)] @@ g
      [] st = 7 -> [r |-> Par0(g.I, g.f)] @@ g
      [] st = 8 -> [P |-> Params(g.I, g.f, g.r), A |-> Args(g.I, g.f)] @@ g
      [] st = 9 -> [q1 |-> IF (g.f.pre \/ g.f.init) /\ g.n <= ENUM
                           THEN PickSeq(Feasible(g.I, g.P, Cust(g.I), IF g.f.pre THEN {1, 2, 3} ELSE 2..5)) ELSE <<>>] @@ g
      [] st = 10 -> [q2 |-> IF (g.f.pre \/ g.f.init) /\ g.n <= ENUM
                            THEN PickSeq(Feasible(g.I, g.P, Cust(g.I) \ Range2(g.q1), 1..3)) ELSE <<>>] @@ g
      [] st = 11 ->
           [A |-> [g.A EXCEPT
              !.pre = IF ~g.f.pre THEN <<>>
                      ELSE (IF g.q1 = <<>> \/ (~g.f.prefull /\ Len(g.q1) < 2) THEN <<>> ELSE <<PreOf(g.f, g.q1, g.I)>>)
                           \o (IF g.q2 = <<>> \/ (~g.f.prefull /\ Len(g.q2) < 2) \/ Pct(50) THEN <<>>
                               ELSE <<PreOf(g.f, g.q2, g.I)>>),
              !.init = IF ~g.f.init THEN <<>>
                       ELSE LET rest == IF ~g.f.pd /\ Pct(25) THEN Cust(g.I) ELSE Cust(g.I) \ (Range2(g.q1) \cup Range2(g.q2))
                            IN  (IF g.q1 = <<>> THEN <<>> ELSE <<Trip(g.I, g.q1)>>)
                                \o (IF g.q2 = <<>> THEN <<>> ELSE <<Trip(g.I, g.q2)>>)
                                \o (IF g.f.pd
                                    THEN SetToSeq({Trip(g.I, <<p, p + 1>>) : p \in {x \in rest : x % 2 = 1}})
                                    ELSE SetToSeq({Trip(g.I, <<v>>) : v \in rest}))]] @@ g
      [] st = 12 -> IF g.f.defect /\ (Prop # "C17" \/ g.nth % 2 = 1)
                    THEN [A |-> [g.A EXCEPT !.defect = Pick(Defects(g, g.I, g.P, g.A, g.f))]] @@ g ELSE g
      [] st = 13 -> [steps |-> Append(g.steps, [I |-> BreakI(g.I, g.P, g.A), P |-> BreakP(g.I, g.P, g.A), A |-> g.A])] @@ g
      [] OTHER -> g
Line == ToJson([lab |-> g.lab, seed |-> g.seed, steps |-> g.steps])
GNext ==
    \/ /\ st < 14 /\ st' = st + 1 /\ g' = Stage
    \/ /\ st = 14 /\ g.left > 0
       /\ LET again == Pct(Prof.again) IN
          /\ st' = IF again THEN 8 ELSE 7
          /\ g' = [f |-> LET f == Flags(g) IN
                         Compat(Tame(g, IF again THEN Again(f, g.f) ELSE Keep(f, g.f))),
                   left |-> g.left - 1, nth |-> g.nth + 1] @@ g
    \/ /\ st = 14 /\ g.left = 0 /\ st' = LAST /\ g' = g
       /\ CSVWrite("%1$s", <<Line>>, Out)
GSpec == GInit /\ [][GNext]_<<st, g>>
=============================================================================
