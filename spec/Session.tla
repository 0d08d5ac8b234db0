------------------------------- MODULE Session -------------------------------
(* Sessions of calls on shared objects: what a call answers is a function of *)
(* the call alone.  It does not depend on the calls made before it, nor on   *)
(* being asked to report (to print, to plot, to show progress and timings),  *)
(* nor on what callers did to the answers they were given: these are theirs. *)
(* What a caller was given stays what it was, whatever is called later.      *)
(*                                                                            *)
(* The answers are named by the calls that a fresh, silent session makes:    *)
(* Answer(c) is what the call c - or the one that c is another wording of -  *)
(* returns there.  The real code is asked for   *)
(* the sessions enumerated here ("plan"), and what it did is replayed on     *)
(* this specification ("trace"), which names the clauses it broke.           *)
EXTENDS Emit, Integers, FiniteSets

Inst == JsonDeserialize("instances.json")

VARIABLES iid,     \* the instance
          hist,    \* the calls so far: <<call, loud>>
          given,   \* what the callers were given, as it reads now
          world,   \* what belongs to nobody's call: inputs, global settings, random state
          shown,   \* figures opened so far
          said,    \* something was printed
          why      \* (traces) clauses that were broken: <<clause, event>>

vars == <<iid, hist, given, world, shown, said, why>>

I == Inst[iid]
Answer(c) == I.alias[c]                    \* calls that say the same in other words have the same answer
Own == 0                                   \* an answer that its caller has written over
Home == 0                                  \* the world as the session found it

Init == /\ iid \in 1..Len(Inst)
        /\ hist = << >> /\ given = << >> /\ world = Home /\ shown = 0 /\ said = FALSE /\ why = {}

\* One call.  figs and text: what it shows of itself; only a loud call may.
Do(c, loud, figs, text) ==
  /\ hist' = Append(hist, <<c, loud>>)
  /\ given' = Append(given, Answer(c))
  /\ world' = world
  /\ shown' = shown + figs
  /\ said' = (said \/ text)
  /\ loud \/ (figs = 0 /\ ~text)

\* The caller writes over the k-th answer, with no consequence but for that answer.
Write(k) == /\ given' = [given EXCEPT ![k] = Own]
            /\ hist' = Append(hist, <<0, k>>)
            /\ UNCHANGED <<world, shown, said>>

Calls == Cardinality({k \in 1..Len(hist) : hist[k][1] # 0})

\* ---- enumeration
Plan == /\ I.kind = "plan"
        /\ Calls < I.depth
        /\ \/ \E c \in 1..I.calls, loud \in BOOLEAN :
                /\ loud => I.loud[c]
                /\ Do(c, loud, IF loud THEN 1 ELSE 0, loud)
           \/ \E k \in 1..Len(given) : given[k] # Own /\ I.lends[given[k]] = FALSE /\ Write(k)
        /\ UNCHANGED <<iid, why>>

\* ---- replay of what the real code did
Ev == I.ev[Len(hist) + 1]
Kept == IF \A k \in 1..Len(given) : given[k] = Own \/ Ev.given[k] = given[k] THEN {} ELSE {"earlier-answer-changed"}
KeptWorld == IF Ev.world = world THEN {} ELSE {"inputs-or-global-state-changed"}
Broken ==
    (IF Ev.a = Answer(Ev.c) THEN {}
     ELSE {IF Ev.a = -1 THEN "raises" ELSE IF Answer(Ev.c) # Ev.c /\ ~Ev.loud THEN "answer-to-another-wording"
           ELSE IF Ev.loud THEN "answer-of-a-reporting-call" ELSE "answer-after-other-calls"})
    \cup Kept \cup KeptWorld
    \cup (IF Ev.loud \/ Ev.figs = 0 THEN {} ELSE {"figure-of-a-silent-call"})
    \cup (IF Ev.loud \/ ~Ev.text THEN {} ELSE {"text-of-a-silent-call"})
\* after the k-th answer was written over, only that one may read differently
Others(k) == (IF \A j \in 1..Len(given) : j = k \/ given[j] = Own \/ Ev.given[j] = given[j] THEN {} ELSE {"answers-share-memory"}) \cup KeptWorld
Note(bad) == why' = why \cup {<<w, Len(hist) + 1>> : w \in bad}
Replay == /\ I.kind = "trace"
          /\ Len(hist) < Len(I.ev)
          /\ UNCHANGED iid
          /\ IF Ev.c = 0
             THEN Note(Others(Ev.k)) /\ Write(Ev.k)
             ELSE Note(Broken) /\ Do(Ev.c, Ev.loud, IF Ev.loud THEN Ev.figs ELSE 0, Ev.loud /\ Ev.text)

Next == Plan \/ Replay
Spec == Init /\ [][Next]_vars

\* ---- properties
\* the calls of the session, in order: given[k] is what the k-th of them was given
Said == SelectSeq(hist, LAMBDA h : h[1] # 0)
\* the same call, the same answer: at any place of the session, reporting or not
SameAnswer == \A j, k \in 1..Len(given) : given[j] # Own /\ given[k] # Own /\ I.alias[Said[j][1]] = I.alias[Said[k][1]] => given[j] = given[k]
\* a session of silent calls shows nothing
Silence == (\A k \in 1..Len(Said) : ~Said[k][2]) => shown = 0 /\ ~said
WorldKept == world = Home
\* what was given is never taken back or rewritten, but by who has it
GivenKept == [][\A k \in 1..Len(given) : given'[k] \in {given[k], Own}]_vars
Done == IF I.kind = "plan" THEN Calls = I.depth ELSE Len(hist) = Len(I.ev)
EmitAll == Done => Emit(IF I.kind = "plan" THEN [iid |-> iid, hist |-> hist, given |-> given] ELSE [iid |-> iid, why |-> why, n |-> Len(hist)])
=============================================================================
