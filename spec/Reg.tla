-------------------------------- MODULE Reg ---------------------------------
(* Regularizers and constraints.  A regularizer is a record:                *)
(*   kind : "grad", "lap", "id", "lowlim", "uplim"                          *)
(*   norm : "l12", "l1", "l2", "Hub"   err : Huber size                     *)
(*   w    : weights (vector on the voxels)                                  *)
(*   um   : update mask (vector on the voxels, ones when there is none)     *)
(*   axes : axes (1-based), pad : "edge", "constant", "wrap"                *)
(*   lim  : the limit of the constraints (vector)                           *)
(* Volumes are flattened in row-major order, shape is their shape.          *)
EXTENDS DataTerm, FiniteSets

RECURSIVE ProdFrom(_, _)
ProdFrom(shape, a) == IF a > Len(shape) THEN 1 ELSE shape[a] * ProdFrom(shape, a + 1)
Size(shape)      == ProdFrom(shape, 1)
Stride(shape, a) == ProdFrom(shape, a + 1)
Coord(shape, a, i) == ((i - 1) \div Stride(shape, a)) % shape[a]      \* 0-based coordinate of voxel i

(* row of the forward difference at voxel i along axis a *)
DiffRow(shape, a, pad, i) ==
  LET c == Coord(shape, a, i)  s == Stride(shape, a)  last == c = shape[a] - 1
      nxt == IF ~last THEN i + s
             ELSE CASE pad = "edge" -> i [] pad = "constant" -> 0 [] pad = "wrap" -> i - (shape[a] - 1) * s
  IN [j \in 1..Size(shape) |-> (IF j = nxt THEN 1 ELSE 0) - (IF j = i THEN 1 ELSE 0)]

GradMat(shape, axes, pad) ==
  LET n == Size(shape)
  IN [r \in 1..(Len(axes) * n) |-> DiffRow(shape, axes[((r - 1) \div n) + 1], pad, ((r - 1) % n) + 1)]

LapRow(shape, a, pad, i) ==
  LET c == Coord(shape, a, i)  s == Stride(shape, a)  d == shape[a]
      nxt == IF c < d - 1 THEN i + s
             ELSE CASE pad = "edge" -> i [] pad = "constant" -> 0 [] pad = "wrap" -> i - (d - 1) * s
      prv == IF c > 0 THEN i - s
             ELSE CASE pad = "edge" -> i [] pad = "constant" -> 0 [] pad = "wrap" -> i + (d - 1) * s
  IN [j \in 1..Size(shape) |-> (IF j = nxt THEN 1 ELSE 0) + (IF j = prv THEN 1 ELSE 0) - (IF j = i THEN 2 ELSE 0)]

RECURSIVE SumRows(_, _, _, _, _)
SumRows(shape, axes, pad, i, k) ==
  IF k = 0 THEN VConst(0, Size(shape)) ELSE VAdd(LapRow(shape, axes[k], pad, i), SumRows(shape, axes, pad, i, k - 1))
LapMat(shape, axes, pad) == [i \in 1..Size(shape) |-> SumRows(shape, axes, pad, i, Len(axes))]

IdMat(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]

RegOp(r, shape) == CASE r.kind = "grad" -> GradMat(shape, r.axes, r.pad)
                     [] r.kind = "lap"  -> LapMat(shape, r.axes, r.pad)
                     [] OTHER           -> IdMat(Size(shape))

IsL1(r) == r.norm \in {"l1", "l12"}

(* dual step, and contribution to the primal step *)
RegSigma(r) == CASE r.kind = "grad" -> "0.5" [] r.kind = "lap" -> "0.25" [] OTHER -> 1
RegTau(r, n) ==
  LET base == CASE r.kind = "grad" -> 2 * Len(r.axes) [] r.kind = "lap" -> 4 * Len(r.axes) [] OTHER -> 1
  IN [i \in 1..n |-> DMul(DMul(base, IF IsL1(r) THEN 1 ELSE r.w[i]), r.um[i])]

RegDualLen(r, n) == IF r.kind = "grad" THEN Len(r.axes) * n ELSE n

(* G is the operator of the regularizer *)
RegUpdateDual(r, G, q, x) ==
  IF r.kind \in {"lowlim", "uplim"} THEN VAdd(q, VSub(x, r.lim))
  ELSE VAdd(q, VScale(RegSigma(r), MatVec(G, x)))

VoxOf(i, n) == ((i - 1) % n) + 1
GroupNorm(q, v, n) == DSqrt(DSum([g \in 1..(Len(q) \div n) |-> DMul(q[(g - 1) * n + v], q[(g - 1) * n + v])]))

RegProxDual(r, q, n) ==
  LET sg == RegSigma(r)
  IN CASE r.kind = "lowlim" -> [i \in DOMAIN q |-> DDiv(DMin(q[i], 0), 2)]
       [] r.kind = "uplim"  -> [i \in DOMAIN q |-> DDiv(DMax(q[i], 0), 2)]
       [] r.norm = "l1"     -> [i \in DOMAIN q |-> IF DLe(DAbs(q[i]), r.w[VoxOf(i, n)]) THEN q[i]
                                                   ELSE DMul(DSgn(q[i]), r.w[VoxOf(i, n)])]
       [] r.norm = "l12"    -> [i \in DOMAIN q |-> LET v == VoxOf(i, n)  g == GroupNorm(q, v, n)
                                                   IN IF DLe(g, r.w[v]) THEN q[i] ELSE DDiv(DMul(q[i], r.w[v]), g)]
       [] r.norm = "l2"     -> VScale(DDiv(1, DAdd(1, sg)), q)
       [] r.norm = "Hub"    -> LET e == VScale(DDiv(1, DAdd(1, DMul(sg, r.err))), q)
                               IN [i \in DOMAIN q |-> LET g == GroupNorm(e, VoxOf(i, n), n)
                                                      IN IF DLe(g, 1) THEN e[i] ELSE DDiv(e[i], g)]

RegUpdatePrimal(r, G, q) ==
  LET u == VMul(MatVec(Transp(G), q), r.um)
  IN IF IsL1(r) THEN u ELSE VMul(u, r.w)

(* proximal in the primal domain, for the regularizers that have one *)
RegProxPrimal(r, x, tau) ==
  CASE r.kind = "id"     -> [i \in DOMAIN x |-> IF DEq(r.um[i], 0) THEN x[i] ELSE Soft(x[i], DMul(tau[i], r.w[i]))]
    [] r.kind = "lowlim" -> [i \in DOMAIN x |-> DMax(x[i], r.lim[i])]
    [] r.kind = "uplim"  -> [i \in DOMAIN x |-> DMin(x[i], r.lim[i])]
=============================================================================
