---------------------------- MODULE Attenuation -----------------------------
(* Attenuation maps: for each rotation angle and detector, the probability   *)
(* that a photon reaches a voxel, and that the photon it emits reaches the   *)
(* detector.  The angles are tasks that complete in any order.               *)
(* instances.json: nz (0 in two dimensions), ny, nx; inc, emi : volumes or   *)
(*   <<>>; rot : angles; det : << [angle, half, sub] >> (half aperture, 0    *)
(*   when the detector is a point; number of sub-angles)                     *)
EXTENDS Image, Emit

Inst == JsonDeserialize("instances.json")
VARIABLES iid, stage, done, maps
vars == <<iid, stage, done, maps>>
I == Inst[iid]
Plane == I.ny * I.nx
NSlices(J) == IF J.nz = 0 THEN 1 ELSE J.nz

RECURSIVE CatSlices(_, _, _, _)
CatSlices(J, v, ang, k) ==
  IF k = 0 THEN <<>>
  ELSE CatSlices(J, v, ang, k - 1)
       \o Transmission(Force([i \in 1..(J.ny * J.nx) |-> v[(k - 1) * J.ny * J.nx + i]]), J.ny, J.nx, ang)
Trans(J, v, ang) == Force(CatSlices(J, v, ang, NSlices(J)))
InMap(J, a)  == Trans(J, J.inc, J.rot[a])
(* the centres of the sub-intervals of the aperture *)
SubAngle(D, k) == IF DEq(D.half, 0) THEN 0
                  ELSE DSub(DMul(D.half, DDiv(2 * k - 1, D.sub)), D.half)
NSub(D) == IF DEq(D.half, 0) THEN 1 ELSE D.sub
OutDir(J, a, D, k) == DAdd(DAdd(DAdd(J.rot[a], D.angle), SubAngle(D, k)), Pi)
RECURSIVE OutSum(_, _, _, _)
OutSum(J, a, D, k) == LET t == Trans(J, J.emi, OutDir(J, a, D, k))
                      IN IF k = 1 THEN t ELSE VAdd(OutSum(J, a, D, k - 1), t)
OutMap(J, a, d) == VScale(DDiv(1, NSub(J.det[d])), OutSum(J, a, J.det[d], NSub(J.det[d])))

Unity(J) == VConst(1, NSlices(J) * J.ny * J.nx)
Init == /\ iid \in 1..Len(Inst) /\ done = <<>>
        /\ stage = IF Inst[iid].inc = <<>> THEN "out" ELSE "in"
        /\ maps = [a \in 1..Len(Inst[iid].rot) |-> [d \in 1..Len(Inst[iid].det) |-> Unity(Inst[iid])]]
Completed == {done[j] : j \in DOMAIN done}
(* one angle of the present stage completes, in any order *)
Finish(a) ==
  /\ stage \in {"in", "out"} /\ a \notin Completed
  /\ done' = Append(done, a) /\ UNCHANGED <<iid, stage>>
  /\ maps' = LET inm == IF stage = "in" THEN InMap(I, a) ELSE <<>>
             IN Force([maps EXCEPT ![a] = [d \in 1..Len(I.det) |-> VMul(@[d], IF stage = "in" THEN inm ELSE OutMap(I, a, d))]])
NextStage ==
  /\ Len(done) = Len(I.rot) /\ stage # "end"
  /\ stage' = (IF stage = "in" /\ I.emi # <<>> THEN "out" ELSE "end")
  /\ (IF stage' = "end" THEN UNCHANGED done ELSE done' = <<>>)
  /\ UNCHANGED <<iid, maps>>
Next == NextStage \/ \E a \in 1..Len(I.rot) : Finish(a)
Spec == Init /\ [][Next]_vars
(* the order of completion is not part of what the maps are *)
View == <<iid, stage, Completed, maps>>

All(P(_)) == \A a \in 1..Len(I.rot) : \A d \in 1..Len(I.det) : \A i \in 1..(NSlices(I) * Plane) : P(maps[a][d][i])
NonNeg(v) == \A i \in DOMAIN v : DLe(0, v[i])
Probability == (NonNeg(I.inc) /\ NonNeg(I.emi)) => LET In01(p) == DLt(0, p) /\ DLe(p, 1) IN All(In01)
(* no more photons than without the emission; the maps of an angle do not depend on when it completes *)
Independent == stage = "end" => \A a \in 1..Len(I.rot) : \A d \in 1..Len(I.det) :
                 VClose(maps[a][d], VMul(IF I.inc = <<>> THEN Unity(I) ELSE InMap(I, a), IF I.emi = <<>> THEN Unity(I) ELSE OutMap(I, a, d)))
Beer(v) == \* on the axes, a beam sees the voxels above, and half of the voxel itself
  LET t == Thickness(v, I.ny, I.nx, 0)
  IN \A i \in 1..Plane : LET r == (i - 1) \div I.nx  c == (i - 1) % I.nx
       IN DClose(t[i], DAdd(DSum([q \in 1..r |-> v[(q - 1) * I.nx + c + 1]]), DDiv(v[i], 2)))
StraightBeam == (I.nz = 0 /\ I.inc # <<>> /\ done = <<>>) => Beer(I.inc)

(* maps of the voxels binned by two: averages of the blocks, after the excess voxels are left out *)
Axes(J) == IF J.nz = 0 THEN <<J.ny, J.nx>> ELSE <<J.nz, J.ny, J.nx>>
CanBin(J) == \A a \in DOMAIN Axes(J) : Axes(J)[a] >= 2
Half(J) == [a \in DOMAIN Axes(J) |-> Axes(J)[a] \div 2]
Binned(J, m) ==
  LET full == Axes(J)  half == Half(J)  nd == Len(full)
      inblock(i) == {v \in 1..Size(full) : \A a \in 1..nd : LET k == Coord(full, a, v) - (full[a] % 2) IN k >= 0 /\ k \div 2 = Coord(half, a, i)}
      RECURSIVE add(_)
      add(S) == IF S = {} THEN 0 ELSE LET v == CHOOSE v \in S : TRUE IN DAdd(m[v], add(S \ {v}))
  IN Force([i \in 1..Size(half) |-> DDiv(add(inblock(i)), 2 ^ nd)])
BinnedProbability == (stage = "end" /\ CanBin(I)) => \A a \in 1..Len(I.rot) : \A d \in 1..Len(I.det) :
   LET b == Binned(I, maps[a][d])  m == maps[a][d]  hi == VMax(m)  lo == DNeg(VMax(VNeg(m)))
   IN \A i \in DOMAIN b : DLeq(b[i], hi) /\ DLeq(lo, b[i])

EmitAll == stage = "end" => Emit([iid |-> iid, maps |-> [a \in 1..Len(I.rot) |-> [d \in 1..Len(I.det) |-> VOut(maps[a][d])]],
                                 binned |-> IF CanBin(I) THEN [a \in 1..Len(I.rot) |-> [d \in 1..Len(I.det) |-> VOut(Binned(I, maps[a][d]))]] ELSE <<>>])
=============================================================================
