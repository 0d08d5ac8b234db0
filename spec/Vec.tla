-------------------------------- MODULE Vec --------------------------------
(* Vectors (sequences) and matrices (sequences of rows) of reals.           *)
EXTENDS Dec, Naturals, Integers

VAdd(u, v)  == Force([i \in DOMAIN u |-> DAdd(u[i], v[i])])
VSub(u, v)  == Force([i \in DOMAIN u |-> DSub(u[i], v[i])])
VMul(u, v)  == Force([i \in DOMAIN u |-> DMul(u[i], v[i])])
VDiv(u, v)  == Force([i \in DOMAIN u |-> DDiv(u[i], v[i])])
VScale(a, v) == Force([i \in DOMAIN v |-> DMul(a, v[i])])
VConst(a, n) == [i \in 1..n |-> a]
VAbs(v)     == Force([i \in DOMAIN v |-> DAbs(v[i])])
VNeg(v)     == Force([i \in DOMAIN v |-> DNeg(v[i])])
VNorm2Sq(v) == DDot(v, v)
VNorm2(v)   == DSqrt(DDot(v, v))
VNorm1(v)   == DSum(VAbs(v))
RECURSIVE VMaxI(_, _)
VMaxI(v, i) == IF i = 1 THEN v[1] ELSE DMax(v[i], VMaxI(v, i - 1))
VMax(v)     == VMaxI(v, Len(v))
VLe(u, v)   == \A i \in DOMAIN u : DLe(u[i], v[i])
VOut(v)     == [i \in DOMAIN v |-> DOut(v[i])]
VEq(u, v)   == \A i \in DOMAIN u : DEq(u[i], v[i])

NRows(M)    == Len(M)
NCols(M)    == Len(M[1])
MatVec(M, v) == Force([r \in 1..Len(M) |-> DDot(M[r], v)])
Transp(M)   == Force([c \in 1..Len(M[1]) |-> [r \in 1..Len(M) |-> M[r][c]]])
MatAbs(M)   == Force([r \in 1..Len(M) |-> VAbs(M[r])])

(* equality up to the rounding of the evaluation *)
Tiny == "1e-40"
DClose(a, b) == DLe(DAbs(DSub(a, b)), DMul(Tiny, DAdd(1, DAdd(DAbs(a), DAbs(b)))))
VClose(u, v) == \A i \in DOMAIN u : DClose(u[i], v[i])
(* a <= b up to rounding *)
DLeq(a, b)  == DLe(a, b) \/ DClose(a, b)
=============================================================================
