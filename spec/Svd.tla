--------------------------------- MODULE Svd ---------------------------------
(* Singular values of the matrices made by unfolding a volume: rows from the *)
(* axes `rows`, columns from the axes `cols`, one matrix per position along  *)
(* the remaining axes.                                                       *)
EXTENDS Transforms, Emit
Inst == JsonDeserialize("instances.json")
VARIABLES iid
vars == <<iid>>
I == Inst[iid]
Sub(shape, axes) == [k \in 1..Len(axes) |-> shape[axes[k]]]
(* flat index of the element with coordinates rest/row/col (1-based flat in each group) *)
PosIn(axes, a) == CHOOSE k \in 1..Len(axes) : axes[k] = a
CoordOf(axes, shape, f, a) == Coord(Sub(shape, axes), PosIn(axes, a), f)
Has(axes, a) == \E k \in 1..Len(axes) : axes[k] = a
Elem(rest, r, c) ==
  FromCoords(I.shape, [a \in 1..Len(I.shape) |->
     IF Has(I.rows, a) THEN CoordOf(I.rows, I.shape, r, a)
     ELSE IF Has(I.cols, a) THEN CoordOf(I.cols, I.shape, c, a)
     ELSE CoordOf(I.rest, I.shape, rest, a)], Len(I.shape)) + 1
NRest == IF I.rest = <<>> THEN 1 ELSE Size(Sub(I.shape, I.rest))
Unfold(q) == [r \in 1..Size(Sub(I.shape, I.rows)) |-> [c \in 1..Size(Sub(I.shape, I.cols)) |-> I.x[Elem(q, r, c)]]]
Vals(q) == LET s == SingVals(Unfold(q))
               m == DSqrt(Size(Sub(I.shape, I.rows)) * Size(Sub(I.shape, I.cols)))
           IN IF I.rescale THEN [k \in DOMAIN s |-> DDiv(s[k], m)] ELSE s
Init == iid \in 1..Len(Inst)
Spec == Init /\ [][UNCHANGED vars]_vars
(* the energy is in the singular values *)
Energy == ~I.rescale => \A q \in 1..NRest : DClose(VNorm2Sq(Vals(q)), DSum([r \in 1..Len(Unfold(q)) |-> VNorm2Sq(Unfold(q)[r])]))
EmitAll == Emit([iid |-> iid, s |-> [q \in 1..NRest |-> VOut(Vals(q))]])
=============================================================================
