------------------------------ MODULE Geometry ------------------------------
(* Projection geometries as objects on a heap.  A geometry has, per angle or *)
(* for all angles (one row), a source, a detector position, and the detector *)
(* directions u and v.  Some operations give a new geometry, others change   *)
(* the one they are called on: no operation may touch the other geometries.  *)
(* instances.json: gt : type, src, rot : initial rows, ctor, shape0 : shift  *)
(*   and detector shape of the new geometry, menu : operations,              *)
(*   depth, maxheap, disp : displacement, wshape : <<v, u>> for the weights, *)
(*   ratio : pixel to voxel                                                  *)
(* Operations [op |-> ..]: "shift" (u, v, cor, dist), "source" (u, v),       *)
(*   "tilt" (ang, axes, withsrc), "rotate" (ang, patch), "slice" (idx),      *)
(*   "copy", "get3d", "shape" (vu)                                           *)
EXTENDS Motion, FiniteSets, Emit

Inst == JsonDeserialize("instances.json")
VARIABLES iid, heap, hist
vars == <<iid, heap, hist>>
I == Inst[iid]

Compat(ns) == \A i \in DOMAIN ns : \A j \in DOMAIN ns : ns[i] = 1 \/ ns[j] = 1 \/ ns[i] = ns[j]

NDim(g) == IF g.gt \in {"cone", "parallel3d"} THEN 3 ELSE 2

Shift(g, o) ==
  LET n == MaxN(MaxN(Len(o.u), Len(g.u)), MaxN(Len(o.dist), IF NDim(g) = 3 /\ o.v # <<>> THEN Len(g.v) ELSE 1))
      pos(k) == VAdd(VAdd(VScale(DAdd(Row(o.u, k), o.cor), Row(g.u, k)),
                          IF NDim(g) = 3 /\ o.v # <<>> THEN VScale(Row(o.v, k), Row(g.v, k)) ELSE <<0, 0, 0>>),
                     <<0, Row(o.dist, k), 0>>)
  IN [g EXCEPT !.det = Force([k \in 1..n |-> pos(k)])]
ShiftOk(g, o) == Compat(<<Len(o.u), Len(g.u), Len(o.dist), Len(g.det)>>)
Source(g, o) ==
  LET n == MaxN(Len(o.u), Len(g.src))
  IN [g EXCEPT !.src = Force([k \in 1..n |-> <<Row(o.u, k), Row(g.src, k)[2], IF NDim(g) = 3 /\ o.v # <<>> THEN Row(o.v, k) ELSE 0>>])]
RECURSIVE Tilt(_, _, _)
Tilt(g, o, k) ==
  IF k > Len(o.axes) THEN g
  ELSE LET r(rows) == RotRows(<<Row(o.ang, k)>>, o.axes[k], rows)
       IN Tilt([g EXCEPT !.u = r(g.u), !.v = r(g.v), !.det = r(g.det), !.src = IF o.withsrc THEN r(g.src) ELSE g.src], o, k + 1)
Rotate(g, o) ==
  LET angs == IF o.patch /\ NDim(g) = 2 THEN VNeg(o.ang) ELSE o.ang
      r(rows) == RotRows(angs, g.rot, rows)
  IN [g EXCEPT !.u = r(g.u), !.v = r(g.v), !.det = r(g.det), !.src = r(g.src)]
Slice(g, o) ==
  LET s(rows) == IF Len(rows) = 1 THEN rows ELSE [k \in 1..Len(o.idx) |-> rows[o.idx[k]]]
  IN [g EXCEPT !.u = s(g.u), !.v = s(g.v), !.det = s(g.det), !.src = s(g.src)]
Get3d(g) == IF NDim(g) = 3 THEN g
            ELSE [g EXCEPT !.gt = "parallel3d", !.shape = IF g.shape = <<>> THEN <<>> ELSE IF Len(g.shape) = 1 THEN <<1, g.shape[1]>> ELSE g.shape]

RowsOf(g) == <<Len(g.src), Len(g.det), Len(g.u), Len(g.v)>>
Enabled(g, o) ==
  CASE o.op = "shift" -> ShiftOk(g, o)
    [] o.op = "source" -> Compat(<<Len(o.u), Len(g.src)>>) /\ Compat(<<Len(o.u), Len(g.det)>>)
    [] o.op = "rotate" -> Compat(RowsOf(g) \o <<Len(o.ang)>>)
    [] o.op = "slice" -> Compat(RowsOf(g)) /\ \A r \in {RowsOf(g)[j] : j \in 1..4} : r = 1 \/ \A k \in DOMAIN o.idx : o.idx[k] <= r
    [] OTHER -> TRUE
NewHandle(o) == o.op \in {"rotate", "slice", "copy", "get3d"}
Apply(g, o) ==
  CASE o.op = "shift" -> Shift(g, o)
    [] o.op = "source" -> Source(g, o)
    [] o.op = "tilt" -> Tilt(g, o, 1)
    [] o.op = "rotate" -> Rotate(g, o)
    [] o.op = "slice" -> Slice(g, o)
    [] o.op = "get3d" -> Get3d(g)
    [] o.op = "shape" -> [g EXCEPT !.shape = o.vu]
    [] o.op = "copy" -> g

Init == /\ iid \in 1..Len(Inst) /\ hist = <<>>
        /\ heap = <<Shift([gt |-> Inst[iid].gt, src |-> Inst[iid].src, det |-> <<<<0, 0, 0>>>>, u |-> <<<<1, 0, 0>>>>, v |-> <<<<0, 0, 1>>>>,
                           rot |-> Inst[iid].rot, shape |-> Inst[iid].shape0], Inst[iid].ctor)>>
Do(h, m) ==
  LET o == I.menu[m]  g == heap[h]
  IN IF ~Enabled(g, o) \/ (NewHandle(o) /\ Len(heap) >= I.maxheap) THEN FALSE
     ELSE /\ heap' = (IF NewHandle(o) THEN Append(heap, Apply(g, o)) ELSE [heap EXCEPT ![h] = Apply(g, o)])
          /\ hist' = Append(hist, <<h, m>>)
          /\ UNCHANGED iid
Next == /\ Len(hist) < I.depth
        /\ \E h \in 1..Len(heap) : \E m \in 1..Len(I.menu) : Do(h, m)
Spec == Init /\ [][Next]_vars

(* the directions of the detector stay orthogonal and of unit length, whatever is done *)
Orthonormal == \A h \in 1..Len(heap) : \A k \in 1..Len(heap[h].u) :
                 LET u == heap[h].u[k]  v == Row(heap[h].v, k)
                 IN DClose(DDot(u, u), 1) /\ DClose(DDot(v, v), 1) /\ DClose(DDot(u, v), 0)
(* rotations keep the distance of the source, and of the detector to it *)
Dist2(a, b) == VNorm2Sq(VSub(a, b))
LastOp == I.menu[hist[Len(hist)][2]]
RotationIsRigid ==
  (hist # <<>> /\ LastOp.op = "rotate") =>
    LET g == heap[hist[Len(hist)][1]]  r == heap[Len(heap)]
    IN \A k \in 1..Len(r.src) : /\ DClose(VNorm2Sq(r.src[k]), VNorm2Sq(Row(g.src, k)))
                                 /\ DClose(Dist2(Row(r.src, k), Row(r.det, k)), Dist2(Row(g.src, k), Row(g.det, k)))
                                 /\ DClose(DDot(r.src[k], g.rot), DDot(Row(g.src, k), g.rot))

-----------------------------------------------------------------------------
(* what is asked of a geometry *)
Displaced(g) == LET d == I.disp  \* x, y, z
                IN [k \in 1..Len(g.u) |-> IF NDim(g) = 2 THEN <<DAdd(DMul(g.u[k][1], d[1]), DMul(g.u[k][2], d[2]))>>
                                          ELSE <<DDot(Row(g.v, k), d), DDot(g.u[k], d)>>]
Weight(g, k, pv, pu) ==
  LET c == VSub(Row(g.det, k), Row(g.src, k))
      p == VAdd(c, VAdd(VScale(pu, Row(g.u, k)), VScale(pv, Row(g.v, k))))
  IN DDiv(VNorm2(c), VNorm2(p))
NAngles(g) == MaxN(MaxN(Len(g.src), Len(g.det)), MaxN(Len(g.u), Len(g.v)))
WCompat(g) == g.gt = "cone" /\ Compat(RowsOf(g)) /\ \A k \in 1..MaxN(Len(g.src), Len(g.det)) : ~DEq(Dist2(Row(g.src, k), Row(g.det, k)), 0)
Weights(g) == [k \in 1..NAngles(g) |-> [pv \in 1..I.wshape[1] |-> [pu \in 1..I.wshape[2] |->
                 DOut(Weight(g, k, DSub(pv, DDiv(I.wshape[1] + 1, 2)), DSub(pu, DDiv(I.wshape[2] + 1, 2))))]]]

RowsOut(rows) == [k \in 1..Len(rows) |-> VOut(rows[k])]
GOut(g) == [gt |-> g.gt, src |-> RowsOut(g.src), det |-> RowsOut(g.det), u |-> RowsOut(g.u), v |-> RowsOut(g.v), shape |-> g.shape,
            ndim |-> NDim(g), disp |-> RowsOut(Displaced(g)), w |-> IF WCompat(g) THEN Weights(g) ELSE <<>>]
Stuck == \A h \in 1..Len(heap) : \A m \in 1..Len(I.menu) : ~Enabled(heap[h], I.menu[m])
EmitAll == (Len(hist) = I.depth) => Emit([iid |-> iid, hist |-> hist, heap |-> [h \in 1..Len(heap) |-> GOut(heap[h])]])
=============================================================================
