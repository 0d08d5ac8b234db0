------------------------------ MODULE Operators ------------------------------
(* Linear operators as objects: a handle on an operator, and what is made    *)
(* from it by any chain of transpositions and absolute values.               *)
(* instances.json, per operator:                                             *)
(*   kind, shape, axes, pad, kernel, kshape, symm, flip, scale, M,           *)
(*   lo, hi, level, norm : parameters of the transforms                      *)
(*   adj : "T" (the adjoint is the transpose), "id" (declared not symmetric: *)
(*         the adjoint is the identity), "inv" (only an inverse)             *)
(*   abs : whether the operator has an absolute value                        *)
(*   xd, xa : vectors of the direct and of the adjoint space                 *)
(*   depth  : longest chain                                                  *)
EXTENDS Transforms, Emit

Inst == JsonDeserialize("instances.json")
NI   == Len(Inst)

Mat(I) ==
  LET n == Size(I.shape)
  IN CASE I.kind = "mat"   -> I.M
       [] I.kind = "ident" -> IdMat(n)
       [] I.kind = "diag"  -> [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN I.scale[i] ELSE 0]]
       [] I.kind = "grad"  -> GradMat(I.shape, I.axes, I.pad)
       [] I.kind = "lap"   -> LapMat(I.shape, I.axes, I.pad)
       [] I.kind = "fft"   -> DftMat(I.shape, I.axes)
       [] I.kind = "conv"  -> LET F(v) == Conv(v, I.shape, I.kernel, I.kshape, I.pad) IN FromMap(n, F)
       [] I.kind = "swt"   -> LET F(v) == Swt(v, I.shape, I.axes, I.lo, I.hi, I.level, I.norm, I.pad) IN FromMap(n, F)
       [] I.kind = "dwt1"  -> LET F(v) == Dwt1(v, I.lo, I.hi, I.pad, I.level) IN FromMap(n, F)
       [] I.kind = "dwtn"  -> LET F(v) == DwtN(v, I.shape, I.shape, I.axes, I.lo, I.hi, I.pad, I.level) IN FromMap(n, F)
AdjMat(I, M) ==
  CASE I.adj = "id" -> IdMat(Size(I.shape))
    [] I.kind = "conv" -> LET F(v) == Conv(v, I.shape, IF I.flip THEN Flip(I.kernel) ELSE I.kernel, I.kshape, I.pad) IN FromMap(Size(I.shape), F)
    [] OTHER -> Transp(M)

VARIABLES iid, fwd, bwd, chain
vars == <<iid, fwd, bwd, chain>>
I == Inst[iid]

Swapped == Cardinality({j \in DOMAIN chain : chain[j] # "abs"}) % 2 = 1

Init == /\ iid \in 1..NI
        /\ fwd = Force(Mat(Inst[iid]))
        /\ bwd = Force(AdjMat(Inst[iid], fwd))
        /\ chain = <<>>
Transpose == /\ Len(chain) < I.depth /\ I.adj # "inv"
             /\ fwd' = bwd /\ bwd' = fwd /\ chain' = Append(chain, "T") /\ UNCHANGED iid
Hermitian == /\ Len(chain) < I.depth /\ I.adj # "inv"
             /\ fwd' = bwd /\ bwd' = fwd /\ chain' = Append(chain, "H") /\ UNCHANGED iid
Absolute == /\ Len(chain) < I.depth /\ I.abs
            /\ LET AI == [I EXCEPT !.kernel = VAbs(I.kernel)]
                   AM == Force(Mat(AI))
                   AA == Force(AdjMat(AI, AM))
               IN IF I.kind = "conv"       \* a volume extended by itself: the kernel counts, not the matrix
                  THEN fwd' = (IF Swapped THEN AA ELSE AM) /\ bwd' = (IF Swapped THEN AM ELSE AA)
                  ELSE fwd' = MatAbs(fwd) /\ bwd' = MatAbs(bwd)
            /\ chain' = Append(chain, "abs") /\ UNCHANGED iid
Next == Transpose \/ Hermitian \/ Absolute
Spec == Init /\ [][Next]_vars

X == IF Swapped THEN I.xa ELSE I.xd
Y == IF Swapped THEN I.xd ELSE I.xa

(* <A x, y> = <x, A^T y>, for whatever is made from the operator *)
Adjointness == I.adj = "T" => DClose(DDot(MatVec(fwd, X), Y), DDot(X, MatVec(bwd, Y)))
(* an even number of transpositions gives the operator back *)
Involution == (chain # <<>> /\ ~Swapped /\ \A j \in DOMAIN chain : chain[j] # "abs") =>
                \A r \in 1..Len(fwd) : VClose(fwd[r], Mat(I)[r])
(* orthogonal transforms that neither pad nor lack a normalization preserve the norm *)
Isometry == (I.iso /\ chain = <<>>) => DClose(VNorm2Sq(MatVec(fwd, X)), VNorm2Sq(X))
(* no gradient, nor Laplacian, in a constant volume that is extended by itself *)
FlatIsFlat == (I.kind \in {"grad", "lap"} /\ I.pad # "constant" /\ chain = <<>>) =>
                \A r \in 1..Len(fwd) : DEq(DSum(fwd[r]), 0)

EmitAll == Emit([iid |-> iid, chain |-> chain, fx |-> VOut(MatVec(fwd, X)),
                 bx |-> IF I.adj = "inv" THEN <<>> ELSE VOut(MatVec(bwd, Y)),
                 M |-> IF I.showM /\ Len(chain) <= 1 THEN [r \in 1..Len(fwd) |-> VOut(fwd[r])] ELSE <<>>])
=============================================================================
