------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Recorded executions of the real code, checked against ColGen.           *)
(* Each trace is one session on one instance: a sequence of steps, each    *)
(* with parameters P, arguments A and the events observed during the call. *)
(* The verdict of a trace is the set of <<step, clause, event>> it violates*)
(***************************************************************************)
EXTENDS ColGen, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VTRACE)

VARIABLES t, s, e, bad
tvars == <<vars, t, s, e, bad>>

Step == Traces[t].steps[s]
Ev == Step.events[e]
(* the clock of the recorder advances by one second per reading *)
Past == Ev.clk >= 0 /\ Step.A.tlimit > 0 /\ Ev.clk >= Step.A.tlimit + 3

TInit ==
    /\ t \in 1..Len(Traces) /\ s = 1 /\ e = 0 /\ bad = {}
    /\ inst = <<>> /\ par = <<>> /\ arg = <<>> /\ phase = "idle" /\ pool = {} /\ nseed = 0
    /\ duals = NoDuals /\ relaxed = NONE /\ nrel = 0 /\ late = [main |-> 0, dive |-> 0]
    /\ conv = FALSE /\ tab = <<>> /\ best = NONE /\ answer = NoAnswer /\ hist = NoHist

Collect(b) == bad' = bad \cup {<<s, c, e>> : c \in b}

TCall ==
    /\ e = 0 /\ s <= Len(Traces[t].steps)
    /\ CallEff(Step.I, Step.P, Step.A)
    /\ e' = 1 /\ UNCHANGED <<t, s, bad>>
More == e >= 1 /\ s <= Len(Traces[t].steps) /\ e <= Len(Step.events)
TColumn ==
    /\ More /\ Ev.e = "column"
    /\ Collect(ColumnBad(Ev.col)) /\ ColumnEff(Ev.col)
    /\ e' = e + 1 /\ UNCHANGED <<t, s>>
TMaster ==
    /\ More /\ Ev.e = "master"
    /\ Collect(MasterBad(Ev.d, Ev.value, Ev.dive, Past)) /\ MasterEff(Ev.d, Ev.value, Ev.dive, Past)
    /\ e' = e + 1 /\ UNCHANGED <<t, s>>
TStop ==
    /\ More /\ Ev.e = "iteration"
    /\ Collect(StopBad(Ev.more)) /\ StopEff(Ev.more)
    /\ e' = e + 1 /\ UNCHANGED <<t, s>>
TRaise ==
    /\ More /\ Ev.e = "raise"
    /\ Collect(RaiseBad(Ev.crash) \cup Flag(Ev.after.checked /\ Ev.after.graph # inst, "input")) /\ RaiseEff
    /\ e' = e + 1 /\ UNCHANGED <<t, s>>
THang ==
    /\ More /\ Ev.e = "hang"
    /\ Collect({"noexc"}) /\ RaiseEff
    /\ e' = e + 1 /\ UNCHANGED <<t, s>>
TReturn ==
    /\ More /\ Ev.e = "return"
    /\ Collect(ReturnBad(Ev.out, Ev.after)) /\ ReturnEff(Ev.out)
    /\ e' = e + 1 /\ UNCHANGED <<t, s>>
TNextStep ==
    /\ s <= Len(Traces[t].steps) /\ e > Len(Step.events)
    /\ s' = s + 1 /\ e' = 0
    /\ IF s = Len(Traces[t].steps)
       THEN PrintT(<<"VERDICT", Traces[t].id, ToJson(bad)>>) ELSE TRUE
    /\ UNCHANGED <<vars, t, bad>>

TNext == TCall \/ TColumn \/ TMaster \/ TStop \/ TRaise \/ THang \/ TReturn \/ TNextStep
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
