------------------------------- MODULE Limits -------------------------------
(* What masks, limits and held-out data mean, whatever the algorithm: the    *)
(* runs of a solver on data b and on data b2, that differ only where the     *)
(* data are masked or held out, recorded iteration by iteration.             *)
(* instances.json: n, xm, lo, hi (vectors, or <<>>), tol, and                *)
(*   runs: << [x |-> vector, x2 |-> vector or <<>>] per iteration >>         *)
EXTENDS Vec, Emit

Inst == JsonDeserialize("instances.json")
VARIABLES iid, k, bad
vars == <<iid, k, bad>>
I == Inst[iid]

In(j) == I.xm = <<>> \/ ~DEq(I.xm[j], 0)
Within(x) == \A j \in 1..I.n : In(j) => /\ I.lo = <<>> \/ DLe(I.lo[j], x[j])
                                        /\ I.hi = <<>> \/ DLe(x[j], I.hi[j])
ZeroOut(x) == \A j \in 1..I.n : ~In(j) => DEq(x[j], 0)
Same(x, y) == y = <<>> \/ \A j \in 1..I.n : DLe(DAbs(DSub(x[j], y[j])), DMul(I.tol, DAdd(1, DAbs(x[j]))))
Accepts(r) == (IF Within(r.x) THEN {} ELSE {"limits"})
              \cup (IF ZeroOut(r.x) THEN {} ELSE {"mask"})
              \cup (IF Same(r.x, r.x2) THEN {} ELSE {"influence"})

Init == iid \in 1..Len(Inst) /\ k = 0 /\ bad = {}
(* any iterate that satisfies the three clauses may follow; the recorded one must be among these *)
Step == /\ k < Len(I.runs) /\ bad = {}
        /\ k' = k + 1
        /\ bad' = Accepts(I.runs[k'])
        /\ UNCHANGED iid
Next == Step
Spec == Init /\ [][Next]_vars

EmitBad == (bad # {} \/ k = Len(I.runs)) => Emit([iid |-> iid, k |-> k, bad |-> bad])
=============================================================================
