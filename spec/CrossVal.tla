------------------------------- MODULE CrossVal -------------------------------
(* Cross-validation of hyper-parameters: construction of the folds, one      *)
(* reconstruction per (value, fold), and scoring.                            *)
(* Instances come from instances.json:                                       *)
(*   N, R, H      data points, folds, hyper-parameter values                 *)
(*   kfold, count k-fold split, or random sets of `count` points             *)
(*   obs          masks recorded from the implementation (<<>>: any masks)   *)
(*   trace        recorded evaluations [h, mask] (<<>>: any order)           *)
(*   r0, rs, it   what the reconstruction of value h, fold r leaves on the   *)
(*                held-out data: initial residual, residuals, iterations     *)
EXTENDS Vec, Emit, FiniteSets

Inst == JsonDeserialize("instances.json")
NI   == Len(Inst)

Ones(m) == {j \in DOMAIN m : m[j] = 1}
Binary(m, n) == Len(m) = n /\ \A j \in DOMAIN m : m[j] \in {0, 1}

(* k-fold: a partition in parts whose sizes differ by at most one *)
Partition(ms, n) == /\ UNION {Ones(ms[r]) : r \in DOMAIN ms} = 1..n
                    /\ \A r, t \in DOMAIN ms : r # t => Ones(ms[r]) \cap Ones(ms[t]) = {}
                    /\ \A r, t \in DOMAIN ms : Cardinality(Ones(ms[r])) <= Cardinality(Ones(ms[t])) + 1
Allowed(I, ms) == /\ Len(ms) = I.R
                  /\ \A r \in DOMAIN ms : Binary(ms[r], I.N)
                  /\ IF I.kfold THEN Partition(ms, I.N)
                     ELSE \A r \in DOMAIN ms : Cardinality(Ones(ms[r])) = I.count

VARIABLES iid, masks, todo, calls, table, phase
vars == <<iid, masks, todo, calls, table, phase>>
I == Inst[iid]

Loss(h, r) == DDiv(I.rs[h][r][I.it[h][r]], I.r0[h][r])

Init == /\ iid \in 1..NI
        /\ masks \in (IF I.obs # <<>> THEN {I.obs} ELSE {ms \in [1..I.R -> [1..I.N -> {0, 1}]] : Allowed(I, ms)})
        /\ todo = (1..I.H) \X (1..I.R)
        /\ calls = <<>>
        /\ table = [h \in 1..I.H |-> [r \in 1..I.R |-> <<>>]]
        /\ phase = IF Allowed(I, masks) THEN "run" ELSE "badmasks"

Eval(h, r) == /\ phase = "run" /\ <<h, r>> \in todo
              /\ I.trace # <<>> => /\ Len(calls) < Len(I.trace)
                                   /\ LET e == I.trace[Len(calls) + 1] IN e.h = h /\ e.mask = masks[r]
              /\ calls' = Append(calls, [h |-> h, mask |-> masks[r], r |-> r])
              /\ table' = [table EXCEPT ![h][r] = Loss(h, r)]
              /\ todo' = todo \ {<<h, r>>}
              /\ UNCHANGED <<iid, masks, phase>>

Finish == /\ phase = "run" /\ todo = {}
          /\ I.trace # <<>> => Len(calls) = Len(I.trace)
          /\ phase' = "done"
          /\ UNCHANGED <<iid, masks, todo, calls, table>>

Next == (\E h \in 1..I.H, r \in 1..I.R : Eval(h, r)) \/ Finish
Spec == Init /\ [][Next]_vars

Mean(s) == DDiv(DSum(s), Len(s))
Std(s)  == LET m == Mean(s) IN DSqrt(DDiv(DSum([j \in DOMAIN s |-> DMul(DSub(s[j], m), DSub(s[j], m))]), Len(s)))

-----------------------------------------------------------------------------
(* every data point is held out in exactly one fold *)
HeldOutOnce == (phase # "badmasks" /\ I.kfold) =>
                 \A j \in 1..I.N : Cardinality({r \in 1..I.R : masks[r][j] = 1}) = 1
(* all the values of a fold are scored on the same data *)
SameFolds == \A c, d \in DOMAIN calls : calls[c].r = calls[d].r => calls[c].mask = calls[d].mask
(* each value is evaluated exactly once per fold *)
OncePerFold == \A c, d \in DOMAIN calls : c # d => <<calls[c].h, calls[c].r>> # <<calls[d].h, calls[d].r>>
Complete == phase = "done" => Len(calls) = I.H * I.R
(* the order of the evaluations has no influence on the scores *)
Scores == phase = "done" => \A h \in 1..I.H, r \in 1..I.R : DEq(table[h][r], Loss(h, r))

EmitDone == phase \in {"done", "badmasks"} =>
              Emit([iid |-> iid, phase |-> phase,
                    f |-> IF phase = "done" THEN [h \in 1..I.H |-> VOut(table[h])] ELSE <<>>,
                    avg |-> IF phase = "done" THEN [h \in 1..I.H |-> DOut(Mean(table[h]))] ELSE <<>>,
                    std |-> IF phase = "done" THEN [h \in 1..I.H |-> DOut(Std(table[h]))] ELSE <<>>])
=============================================================================
