------------------------------- MODULE VolGeom -------------------------------
(* Volume geometries: made from the shape of the data, or of a volume,       *)
(* converted to 3D, and asked for their shapes and extent.                   *)
(* A geometry: [xyz : shape, ss : number of voxels per unit length]          *)
(* instances.json: menu of constructions                                     *)
(*   [op |-> "data", dims : <<<<name, size>>..>>, pad : <<left, right>>, ss] *)
(*   [op |-> "volume", shape]                                                *)
EXTENDS Integers, Sequences, FiniteSets, Emit

Inst == JsonDeserialize("instances.json")
VARIABLES iid, heap, hist
vars == <<iid, heap, hist>>
I == Inst[iid]

Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Sub(s, a, b) == [k \in 1..(b - a + 1) |-> s[a + k - 1]]
Has(dims, c) == \E k \in DOMAIN dims : dims[k][1] = c
Dim(dims, c) == dims[CHOOSE k \in DOMAIN dims : dims[k][1] = c][2]

FromData(o) ==
  LET u == Dim(o.dims, "u") - o.pad[1] - o.pad[2]
      s == IF Has(o.dims, "v") THEN <<u, u, Dim(o.dims, "v")>> ELSE <<u, u>>
  IN [xyz |-> [k \in 1..Len(s) |-> s[k] * o.ss], ss |-> o.ss]
(* the last two dimensions of a volume are X and Y *)
FromVolume(o) ==
  LET n == Len(o.shape)
  IN [xyz |-> <<o.shape[n - 1], o.shape[n]>> \o Rev(Sub(o.shape, 1, n - 2)), ss |-> 1]
Zxy(g) == Rev(Sub(g.xyz, 3, Len(g.xyz))) \o <<g.xyz[1], g.xyz[2]>>
Get3d(g) == IF Len(g.xyz) = 2 THEN [g EXCEPT !.xyz = @ \o <<1>>] ELSE g
Is3d(g) == Len(g.xyz) = 3 /\ g.xyz[3] > 1
IsSquare(g) == g.xyz[1] = g.xyz[2]
(* twice the extent, in units of a voxel: from -n to n voxels of size 1 / ss *)
Extent2(g) == [k \in 1..(2 * Len(g.xyz)) |-> (IF k % 2 = 1 THEN -1 ELSE 1) * g.xyz[(k + 1) \div 2]]

Make(o) == IF o.op = "data" THEN FromData(o) ELSE FromVolume(o)
Init == iid \in 1..Len(Inst) /\ heap = <<>> /\ hist = <<>>
New(m) == /\ heap' = Append(heap, Make(I.menu[m])) /\ hist' = Append(hist, <<"new", m>>) /\ UNCHANGED iid
To3d(h) == /\ heap' = Append(heap, Get3d(heap[h])) /\ hist' = Append(hist, <<"get3d", h>>) /\ UNCHANGED iid
Next == /\ Len(hist) < I.depth
        /\ (\E m \in 1..Len(I.menu) : New(m)) \/ (\E h \in 1..Len(heap) : To3d(h))
Spec == Init /\ [][Next]_vars

RoundTrip == \A k \in 1..Len(hist) : (hist[k][1] = "new" /\ I.menu[hist[k][2]].op = "volume") => Zxy(heap[k]) = I.menu[hist[k][2]].shape
ZxyIsPermutation == \A h \in 1..Len(heap) : FromVolume([shape |-> Zxy(heap[h])]).xyz = heap[h].xyz
(* the super-sampling changes the voxels, not the field of view *)
FieldOfView == \A k \in 1..Len(hist) : (hist[k][1] = "new" /\ I.menu[hist[k][2]].op = "data") =>
                 LET o == I.menu[hist[k][2]]
                     e == Extent2(heap[k])  e1 == Extent2(FromData([o EXCEPT !.ss = 1]))
                 IN \A j \in DOMAIN e : e[j] = e1[j] * heap[k].ss
Idempotent == \A h \in 1..Len(heap) : Get3d(Get3d(heap[h])) = Get3d(heap[h]) /\ Is3d(Get3d(heap[h])) = Is3d(heap[h])

Out(g) == [xyz |-> g.xyz, ss |-> g.ss, zxy |-> Zxy(g), is3d |-> Is3d(g), square |-> IsSquare(g), ext2 |-> Extent2(g), mask |-> <<g.xyz[1], g.xyz[2]>>]
EmitAll == Len(hist) = I.depth => Emit([iid |-> iid, hist |-> hist, heap |-> [h \in 1..Len(heap) |-> Out(heap[h])]])
=============================================================================
