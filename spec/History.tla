------------------------------ MODULE History -------------------------------
(* Histories of calls of solver objects that share their regularizers, data *)
(* terms and operators.  Call c uses the solver object SolverOf[c] and the  *)
(* shared objects UsesOf[c]; every object is a cell that a call binds to    *)
(* its own problem (data, steps, shapes) before reading it.                 *)
EXTENDS Naturals, Sequences, Emit

CONSTANTS NCalls, SolverOf, UsesOf, NObjs, MaxLen

VARIABLES hist, cell, built, read, outs, phase
vars == <<hist, cell, built, read, outs, phase>>

Objs(c) == UsesOf[c]
Last    == hist[Len(hist)]

Init == /\ hist = <<>> /\ phase = "idle"
        /\ cell = [o \in 1..NObjs |-> 0]        \* which call the object is bound to
        /\ built = {}                            \* solver objects that exist
        /\ read = {} /\ outs = <<>>

(* a call starts: the solver is constructed when it does not exist yet *)
Begin(c) == /\ phase = "idle" /\ Len(hist) < MaxLen
            /\ hist' = Append(hist, c) /\ built' = built \cup {SolverOf[c]}
            /\ phase' = "bind" /\ UNCHANGED <<cell, read, outs>>

Bind == /\ phase = "bind"
        /\ cell' = [o \in 1..NObjs |-> IF o \in Objs(Last) THEN Last ELSE cell[o]]
        /\ phase' = "run" /\ UNCHANGED <<hist, built, read, outs>>

(* the outcome is a function of the call and of what its objects are bound to *)
Run == /\ phase = "run"
       /\ read' = {cell[o] : o \in Objs(Last)} \cup {Last}
       /\ outs' = Append(outs, read')
       /\ phase' = "idle" /\ UNCHANGED <<hist, cell, built>>

Next == (\E c \in 1..NCalls : Begin(c)) \/ Bind \/ Run
Spec == Init /\ [][Next]_vars

(* no call sees anything of another call *)
Independent == \A j \in 1..Len(outs) : outs[j] = {hist[j]}
(* what was returned is never changed afterwards *)
Stable == [][\A j \in 1..Len(outs) : outs'[j] = outs[j]]_vars

EmitFull == (phase = "idle" /\ Len(hist) = MaxLen) => Emit(hist)
=============================================================================
