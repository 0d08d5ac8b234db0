------------------------------- MODULE Denoise ------------------------------
(* What the denoising of images starts from: recorded starting images and    *)
(* masks of the held-out pixels, judged; the operator of the blurring.       *)
(* instances.json: shape <<rows, columns>>, img, psf, pshape,                *)
(*   starts : << [mask, x0] >> recorded                                      *)
EXTENDS Transforms, FiniteSets, Emit
Inst == JsonDeserialize("instances.json")
VARIABLES iid
vars == <<iid>>
I == Inst[iid]
N == I.shape[1] * I.shape[2]
Row(i) == (i - 1) \div I.shape[2]
Col(i) == (i - 1) % I.shape[2]
Dist(a, b) == IF a < b THEN b - a ELSE a - b

(* median over a window of 11 x 11 pixels, that are zero outside of the image *)
Near(i) == {j \in 1..N : Dist(Row(i), Row(j)) <= 5 /\ Dist(Col(i), Col(j)) <= 5}
Below(i, v) == Cardinality({j \in Near(i) : DLt(I.img[j], v)}) + (IF DLt(0, v) THEN 121 - Cardinality(Near(i)) ELSE 0)
UpTo(i, v) == Cardinality({j \in Near(i) : DLe(I.img[j], v)}) + (IF DLe(0, v) THEN 121 - Cardinality(Near(i)) ELSE 0)
Middle(i, v) == Below(i, v) <= 60 /\ UpTo(i, v) >= 61
Median(i) == IF Middle(i, 0) THEN 0 ELSE I.img[CHOOSE j \in Near(i) : Middle(i, I.img[j])]
(* the held-out pixels start from their surroundings, the others from the image *)
Start(m) == Force([i \in 1..N |-> IF m[i] = 1 THEN Median(i) ELSE I.img[i]])
Judge(s) == [binary |-> \A i \in 1..N : s.mask[i] \in {0, 1}, some |-> \E i \in 1..N : s.mask[i] = 1, most |-> 2 * Cardinality({i \in 1..N : s.mask[i] = 1}) < N, x0 |-> VEq(s.x0, Start(s.mask))]

(* the blurring, and its transpose as the operator provides it (the image is continued by its edges) *)
Blur == IF I.psf = <<>> THEN <<>> ELSE
  LET F(v) == Conv(v, I.shape, I.psf, I.pshape, "edge")  B(v) == Conv(v, I.shape, Flip(I.psf), I.pshape, "edge")
      unit(j) == [i \in 1..N |-> IF i = j THEN 1 ELSE 0]
      cols(G(_)) == Force([j \in 1..N |-> G(unit(j))])
  IN Force(<<Transp(cols(F)), Transp(cols(B))>>)
(* away from the edges, it is the transpose *)
Inner(i) == Row(i) >= 1 /\ Row(i) < I.shape[1] - 1 /\ Col(i) >= 1 /\ Col(i) < I.shape[2] - 1
Adjoint == I.psf # <<>> => LET b == Force(Blur) IN \A i, j \in 1..N : (Inner(i) /\ Inner(j)) => DEq(b[1][i][j], b[2][j][i])
Init == iid \in 1..Len(Inst)
Spec == Init /\ [][UNCHANGED vars]_vars
EmitAll == LET b == Force(Blur) IN
  Emit([iid |-> iid, starts |-> [k \in DOMAIN I.starts |-> Judge(I.starts[k])], blur |-> [k \in DOMAIN b |-> [i \in 1..N |-> VOut(b[k][i])]]])
=============================================================================
