----------------------------- MODULE Projector ------------------------------
(* Projectors as objects: a volume, seen from a set of angles, by a set of   *)
(* detectors, with intensities, attenuation and a point spread function.     *)
(* instances.json:                                                           *)
(*   kind "mat": W[a] is the matrix of the projection of angle a             *)
(*        "sk" : ang[a] is the angle, the volume is a square of n x n        *)
(*   n, nv, nu, na, nd, nvox;  att[a][d] : maps or <<>>;  wdet[d], wang[a][d]*)
(*   inten[a]; psf, pshape : kernel (<<>> when there is none)                *)
(*   symm : the back-projection applies the attenuation                      *)
(*   x : volume; y[d][a] : line (nv x nu, flattened); depth                  *)
EXTENDS Image, Emit

Inst == JsonDeserialize("instances.json")
VARIABLES iid, open, coll, hist
vars == <<iid, open, coll, hist>>
I == Inst[iid]

Fwd(J, a, v) == IF J.kind = "mat" THEN MatVec(J.W[a], v) ELSE Radon(v, J.n, J.ang[a])
Bwd(J, a, p) == IF J.kind = "mat" THEN MatVec(Transp(J.W[a]), p) ELSE Smear(p, J.n, J.ang[a])
Psf(J, p) == IF J.psf = <<>> THEN p
             ELSE Force(IF J.nv = 0 THEN Conv(p, <<J.nu>>, J.psf, <<Len(J.psf)>>, "edge")
                        ELSE Conv(p, <<J.nv, J.nu>>, J.psf, J.pshape, "edge"))

(* what the detectors amount to when they are taken as one *)
WSum(J) == DSum(J.wdet)
CollapsedAtt(J, a) == Force([j \in 1..J.nvox |-> DDiv(DSum([d \in 1..J.nd |-> DMul(J.wdet[d], J.att[a][d][j])]), WSum(J))])
Collapsed(J) == [J EXCEPT !.nd = 1,
                          !.att = [a \in 1..J.na |-> <<CollapsedAtt(J, a)>>],
                          !.wdet = <<WSum(J)>>,
                          !.wang = [a \in 1..J.na |-> <<DDiv(DSum([d \in 1..J.nd |-> DMul(J.wdet[d], J.wang[a][d])]), WSum(J))>>]]
Cur == IF coll THEN Collapsed(I) ELSE I

Seen(J, a, d, v) == IF J.att = <<>> THEN v ELSE VMul(J.att[a][d], v)
Wgt(J, a, d) == DMul(J.wdet[d], J.wang[a][d])
FpLine(J, a, d, v) == VScale(Wgt(J, a, d), Psf(J, VScale(J.inten[a], Fwd(J, a, Seen(J, a, d, v)))))
BpLine(J, a, d, p) == LET b == VScale(DMul(Wgt(J, a, d), J.inten[a]), Bwd(J, a, p))
                      IN IF J.symm THEN Seen(J, a, d, b) ELSE b
RECURSIVE VSumUp(_, _)
VSumUp(ss, k) == IF k = 1 THEN ss[1] ELSE VAdd(VSumUp(ss, k - 1), ss[k])
BpAngle(J, a, y) == VSumUp([d \in 1..J.nd |-> BpLine(J, a, d, y[d][a])], J.nd)
Fp(J, v) == Force([d \in 1..J.nd |-> [a \in 1..J.na |-> FpLine(J, a, d, v)]])
Bp(J, y) == VSumUp([a \in 1..J.na |-> BpAngle(J, a, y)], J.na)
Y == IF coll THEN <<I.y[1]>> ELSE I.y

Ops == {"fp", "bp", "fpa", "bpa", "T", "rep"}
Init == /\ iid \in 1..Len(Inst) /\ open = FALSE /\ coll = FALSE /\ hist = <<>>
Do(o) == hist' = Append(hist, o) /\ UNCHANGED iid
Enter == /\ ~open /\ open' = TRUE /\ UNCHANGED coll /\ Do("enter")
Leave == /\ open /\ open' = FALSE /\ UNCHANGED coll /\ Do("leave")
Collapse == /\ I.nd > 1 /\ ~coll /\ coll' = TRUE /\ UNCHANGED open /\ Do("collapse")
Use(o) == /\ UNCHANGED <<open, coll>> /\ Do(o)
Next == /\ Len(hist) < I.depth
        /\ (Enter \/ Leave \/ Collapse \/ \E o \in Ops : Use(o))
Spec == Init /\ [][Next]_vars

Fresh == hist = <<>> \/ hist = <<"collapse">>
RECURSIVE DotAll(_, _, _)
DotLines(P, Q, d) == DSum([a \in 1..Len(P[d]) |-> DDot(P[d][a], Q[d][a])])
DotAll(P, Q, d) == IF d = 0 THEN 0 ELSE DAdd(DotAll(P, Q, d - 1), DotLines(P, Q, d))
(* the adjoint: for exact matrices, when the back-projection is the symmetric one *)
Adjointness == (Fresh /\ I.kind = "mat" /\ I.symm /\ I.psf = <<>>) =>
                 DClose(DotAll(Fp(Cur, I.x), Y, Cur.nd), DDot(I.x, Bp(Cur, Y)))
(* one detector instead of many sees the sum of what they see, when the angles weigh the same on all *)
CollapseKeepsTotal ==
  (coll /\ Fresh /\ \A a \in 1..I.na : \A d \in 1..I.nd : DEq(I.wang[a][d], I.wang[a][1])) =>
    LET f == Fp(Cur, I.x)  g == Fp(I, I.x)
    IN \A a \in 1..I.na : VClose(f[1][a], VSumUp([d \in 1..I.nd |-> g[d][a]], I.nd))

Lines(P) == [d \in 1..Len(P) |-> [a \in 1..Len(P[d]) |-> VOut(P[d][a])]]
EmitAll == /\ Fresh => Emit([iid |-> iid, coll |-> coll, fp |-> Lines(Fp(Cur, I.x)), bp |-> VOut(Bp(Cur, Y)),
                             bpa |-> [a \in 1..I.na |-> VOut(BpAngle(Cur, a, Y))]])
           /\ Len(hist) = I.depth => Emit([iid |-> iid, hist |-> hist])
=============================================================================
