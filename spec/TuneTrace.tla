------------------------------ MODULE TuneTrace ------------------------------
(* Validation of recorded evaluations (real threads) against TuneSched.     *)
(* Logged: start and finish of each task, and the end of the batch with the *)
(* slots of the returned lists.  Not logged, hence silent: Submit, Collect. *)
EXTENDS TuneSched

Traces == JsonDeserialize("traces.json")

VARIABLES tid, l

tvars == <<vars, tid, l>>

T == Traces[tid].ev

TraceInit == /\ Init
             /\ tid \in 1..Len(Traces)
             /\ l = 1
             /\ bad = {Traces[tid].bad[i] : i \in 1..Len(Traces[tid].bad)}

IsEvent(e) == l <= Len(T) /\ T[l][1] = e /\ l' = l + 1 /\ UNCHANGED tid

TStart  == IsEvent("start") /\ Start(T[l][2])
TFinish == IsEvent("finish") /\ Finish(T[l][2])
TReturn == IsEvent("returned") /\ Return /\ \A t \in Tasks : T[l][2][t] = filed[t]
TRaise  == IsEvent("raised") /\ Raise /\ T[l][2] = cause
Silent  == /\ UNCHANGED <<tid, l>>
           /\ l <= Len(T)
           /\ \/ Submit
              \/ \E t \in Tasks : CollectOk(t) \/ CollectBad(t)

TraceNext == TStart \/ TFinish \/ TReturn \/ TRaise \/ Silent
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == (l = Len(T) + 1) => Emit([acc |-> tid])
Furthest == Emit([tid |-> tid, l |-> l])
=============================================================================
