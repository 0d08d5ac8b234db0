------------------------------ MODULE TuneSched ------------------------------
(* Evaluation of a batch of hyper-parameter values (param_tuning).          *)
(*                                                                          *)
(* One task per hyper-parameter value.  The dispatcher submits the tasks,   *)
(* an executor with W workers (W = 0: serial evaluation in the caller)      *)
(* starts and finishes them in any order, and a collector files each        *)
(* outcome.  On the first failed outcome that is collected, the tasks that  *)
(* did not start are cancelled, and the failure is the result of the batch. *)
(* The critical sections of the code are: Submit, Start, Finish, Collect,   *)
(* and the end of the batch (Return / Raise).                               *)
EXTENDS Naturals, Sequences, FiniteSets, Emit

CONSTANTS N,        \* number of hyper-parameter values
          W,        \* number of workers, 0 for the serial evaluation
          MAXFAIL,  \* largest number of failing tasks
          TRACK     \* whether the schedule is kept (off: plain state space)

Tasks == 1..N

VARIABLES bad,      \* the tasks whose evaluation fails
          st,       \* st[t]: "new", "pending", "running", "done", "failed", "cancelled"
          runs,     \* runs[t]: how often task t was executed
          filed,    \* filed[t]: 0 or the task whose outcome is in slot t
          phase,    \* "submit", "collect", "abort", "returned", "raised"
          cause,    \* the task whose failure ended the batch
          late,     \* tasks started after the batch was aborted
          hist      \* schedule, for the replay

vars == <<bad, st, runs, filed, phase, cause, late, hist>>

Init == /\ bad \in {s \in SUBSET Tasks : Cardinality(s) <= MAXFAIL}
        /\ st = [t \in Tasks |-> "new"]
        /\ runs = [t \in Tasks |-> 0]
        /\ filed = [t \in Tasks |-> 0]
        /\ phase = "submit"
        /\ cause = 0
        /\ late = {}
        /\ hist = <<>>

NSub == Cardinality({t \in Tasks : st[t] # "new"})
Running == {t \in Tasks : st[t] = "running"}
Log(e, t) == hist' = IF TRACK THEN Append(hist, <<e, t>>) ELSE hist

(* serial evaluation: a task is submitted when the previous one was filed  *)
MaySubmit == IF W = 0 THEN \A t \in Tasks : st[t] = "new" \/ filed[t] # 0 ELSE TRUE

Submit == /\ phase = "submit" /\ NSub < N /\ MaySubmit
          /\ LET t == NSub + 1 IN
               /\ st' = [st EXCEPT ![t] = "pending"]
               /\ Log("submit", t)
          /\ phase' = IF NSub + 1 = N \/ W = 0 THEN "collect" ELSE "submit"
          /\ UNCHANGED <<bad, runs, filed, cause, late>>

Start(t) == /\ phase \in {"submit", "collect", "abort"}
            /\ st[t] = "pending"
            /\ Cardinality(Running) < (IF W = 0 THEN 1 ELSE W)
            /\ st' = [st EXCEPT ![t] = "running"]
            /\ runs' = [runs EXCEPT ![t] = @ + 1]
            /\ late' = IF phase = "abort" THEN late \cup {t} ELSE late
            /\ Log("start", t)
            /\ UNCHANGED <<bad, filed, phase, cause>>

Finish(t) == /\ st[t] = "running"
             /\ st' = [st EXCEPT ![t] = IF t \in bad THEN "failed" ELSE "done"]
             /\ Log("finish", t)
             /\ UNCHANGED <<bad, runs, filed, phase, cause, late>>

CollectOk(t) == /\ phase = "collect" /\ st[t] = "done" /\ filed[t] = 0
                /\ filed' = [filed EXCEPT ![t] = t]
                /\ phase' = IF W = 0 /\ NSub < N THEN "submit" ELSE phase
                /\ Log("file", t)
                /\ UNCHANGED <<bad, st, runs, cause, late>>

CollectBad(t) == /\ phase = "collect" /\ st[t] = "failed"
                 /\ phase' = "abort"
                 /\ cause' = t
                 /\ st' = [u \in Tasks |-> IF st[u] = "pending" THEN "cancelled" ELSE st[u]]
                 /\ Log("abort", t)
                 /\ UNCHANGED <<bad, runs, filed, late>>

Return == /\ phase = "collect" /\ NSub = N /\ \A t \in Tasks : filed[t] # 0
          /\ phase' = "returned"
          /\ UNCHANGED <<bad, st, runs, filed, cause, late, hist>>

Raise == /\ phase = "abort" /\ Running = {}
         /\ phase' = "raised"
         /\ UNCHANGED <<bad, st, runs, filed, cause, late, hist>>

Next == \/ Submit \/ Return \/ Raise
        \/ \E t \in Tasks : Start(t) \/ Finish(t) \/ CollectOk(t) \/ CollectBad(t)

Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* Properties *)
OrderedAndComplete == phase = "returned" => \A t \in Tasks : filed[t] = t
ExactlyOnce        == /\ \A t \in Tasks : runs[t] <= 1
                      /\ phase = "returned" => \A t \in Tasks : runs[t] = 1
FailurePropagates  == phase = "returned" => bad = {}
FailureIsReal      == phase = "raised" => cause \in bad /\ runs[cause] = 1
NoLateStart        == late = {}
SlotOwnership      == \A t \in Tasks : filed[t] \in {0, t}
Ends               == <>(phase \in {"returned", "raised"})

(* emission of complete schedules *)
Terminal == phase \in {"returned", "raised"}
EmitDone == Terminal => Emit([bad |-> bad, hist |-> hist, out |-> phase, cause |-> cause,
                              runs |-> runs])
=============================================================================
