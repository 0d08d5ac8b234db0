------------------------------ MODULE TermObj -------------------------------
(* A data term as an object: it is bound to data and a dual step, possibly  *)
(* many times, and asked for residuals, norms and proximals in between.     *)
(* terms.json: a list of                                                    *)
(*   [kind, w, err, bg, G, mats, datas, sigmas, taus, ys, ds, masks]        *)
(* l12 and HubG act on groups of G values, strided by Len / G;              *)
(* "ln" acts on the matrices mats (lists of rows, two columns each).        *)
EXTENDS DataTerm, FiniteSets, Emit

T  == JsonDeserialize("terms.json")
NT == Len(T)
MaxBind == 2

Grp(t, v, i) == LET n == Len(v) \div t.G  v0 == ((i - 1) % n) + 1
                IN DSqrt(DSum([g \in 1..t.G |-> DMul(v[(g - 1) * n + v0], v[(g - 1) * n + v0])]))

PDual(t, b, sg, d) ==
  CASE t.kind = "l12"  -> LET e == [i \in DOMAIN d |-> DSub(d[i], DMul(sg[i], DataAt(b, i)))]
                          IN [i \in DOMAIN d |-> LET g == Grp(t, e, i) IN IF DLe(g, 1) THEN e[i] ELSE DDiv(e[i], g)]
    [] t.kind = "HubG" -> LET e == [i \in DOMAIN d |-> DDiv(DSub(d[i], DMul(sg[i], DataAt(b, i))), DAdd(1, DMul(sg[i], t.err[i])))]
                          IN [i \in DOMAIN d |-> LET g == Grp(t, e, i) IN IF DLe(g, 1) THEN e[i] ELSE DDiv(e[i], g)]
    [] OTHER -> ProxDual(t, b, sg, d, Ones(d))

Base(t) == IF t.kind \in {"l12", "HubG"} THEN [t EXCEPT !.kind = "l2"] ELSE t
Res(t, b, sg, y, mask) == Residual(Base(t), b, sg, y, mask)
Norm(t, r) ==
  CASE t.kind = "l12"  -> LET n == Len(r) \div t.G IN DSum([v \in 1..n |-> Grp(t, r, v)])
    [] t.kind = "HubG" -> ResidualNorm([t EXCEPT !.kind = "Hub"], r)
    [] OTHER -> ResidualNorm(t, r)
Grouped(t) == t.kind \in {"l12", "HubG"}

-----------------------------------------------------------------------------
(* Nuclear norm of matrices with two columns, through the eigenvalues of    *)
(* the Gram matrix; its dual proximal clips the singular values at one.     *)
Gram(M) == [a |-> DSum([i \in 1..Len(M) |-> DMul(M[i][1], M[i][1])]),
            b |-> DSum([i \in 1..Len(M) |-> DMul(M[i][1], M[i][2])]),
            c |-> DSum([i \in 1..Len(M) |-> DMul(M[i][2], M[i][2])])]
Eig(g) == LET d == DSub(g.a, g.c)
              r == DSqrt(DAdd(DMul(d, d), DMul(4, DMul(g.b, g.b))))
          IN <<DDiv(DAdd(DAdd(g.a, g.c), r), 2), DMax(0, DDiv(DSub(DAdd(g.a, g.c), r), 2))>>
Nuclear(M) == LET e == Eig(Gram(M)) IN DAdd(DSqrt(e[1]), DSqrt(e[2]))
Clip1(l) == IF DLe(l, 1) THEN 1 ELSE DDiv(1, DSqrt(l))
SvClip(M) ==
  LET g == Gram(M)  e == Eig(g)  f1 == Clip1(e[1])  f2 == Clip1(e[2])
      same == DLe(DSub(e[1], e[2]), "1e-25")
      c == IF same THEN 0 ELSE DDiv(DSub(f1, f2), DSub(e[1], e[2]))
      a == DSub(f1, DMul(c, e[1]))
  IN [i \in 1..Len(M) |-> <<DAdd(DMul(a, M[i][1]), DMul(c, DAdd(DMul(M[i][1], g.a), DMul(M[i][2], g.b)))),
                            DAdd(DMul(a, M[i][2]), DMul(c, DAdd(DMul(M[i][1], g.b), DMul(M[i][2], g.c))))>>]
MatOut(M) == [i \in 1..Len(M) |-> VOut(M[i])]

-----------------------------------------------------------------------------
VARIABLES tid, binds
vars == <<tid, binds>>
Cur == T[tid]

Init == tid \in 1..NT /\ binds = <<>>
Bind == /\ Len(binds) < MaxBind /\ Cur.kind # "ln"
        /\ \E d \in 0..Len(Cur.datas), s \in 1..Len(Cur.sigmas) : binds' = Append(binds, <<d, s>>)
        /\ UNCHANGED tid
Next == Bind
Spec == Init /\ [][Next]_vars

Last == binds[Len(binds)]
B  == IF Last[1] = 0 THEN <<>> ELSE Cur.datas[Last[1]]
Sg == Cur.sigmas[Last[2]]
Bound == binds # <<>>
First == Len(binds) = 1

(* the answers of the bound object depend on the last binding only *)
Answers ==
  [res  |-> [y \in 1..Len(Cur.ys) |-> [m \in 1..Len(Cur.masks) |-> VOut(Res(Cur, B, Sg, Cur.ys[y], Cur.masks[m]))]],
   norm |-> [y \in 1..Len(Cur.ys) |-> [m \in 1..Len(Cur.masks) |-> DOut(Norm(Cur, Res(Cur, B, Sg, Cur.ys[y], Cur.masks[m])))]],
   upd  |-> [d \in 1..Len(Cur.ds) |-> VOut(UpdateDual(Cur, Sg, Cur.ds[d], Cur.ys[1]))],
   pd   |-> [d \in 1..Len(Cur.ds) |-> VOut(PDual(Cur, B, Sg, Cur.ds[d]))],
   pp   |-> IF ~HasPrimal(Cur) \/ Grouped(Cur) THEN <<>>
            ELSE [d \in 1..Len(Cur.ds) |-> [u \in 1..Len(Cur.taus) |-> VOut(ProxPrimal(Cur, B, Cur.taus[u], Cur.ds[d]))]],
   desc |-> IF Cur.kind # "KL" THEN <<>> ELSE [y \in 1..Len(Cur.ys) |-> [m \in 1..Len(Cur.masks) |-> VOut(KLDescent(Cur, B, Cur.ys[y], Cur.masks[m]))]],
   dot  |-> [d \in 1..Len(Cur.ds) |-> [m \in 1..Len(Cur.masks) |-> DOut(DataDualDot(B, Cur.ds[d], Cur.masks[m]))]]]

EmitBound == (Bound /\ First) => Emit([tid |-> tid, bind |-> Last, ans |-> Answers])
EmitLn == Cur.kind = "ln" => Emit([tid |-> tid, nuc |-> [j \in 1..Len(Cur.mats) |-> DOut(Nuclear(Cur.mats[j]))],
                                   clip |-> [j \in 1..Len(Cur.mats) |-> MatOut(SvClip(Cur.mats[j]))]])

(* Properties of the terms *)
Elems == 1..Len(Cur.ds[1])
MoreauHolds == (Bound /\ First /\ HasPrimal(Cur) /\ ~Grouped(Cur) /\ ~(Cur.kind = "KL" /\ B = <<>>)) =>
                 \A u \in 1..Len(Cur.taus), d \in 1..Len(Cur.ds) : Moreau(Cur, B, Cur.taus[u], Cur.ds[d])
NormNonNegative == (Bound /\ First) => \A y \in 1..Len(Cur.ys) : DLe(0, Norm(Cur, Res(Cur, B, Sg, Cur.ys[y], <<>>)))
ZeroOnData == (Bound /\ First /\ B # <<>> /\ Cur.kind # "KL") =>
                LET y == IF Cur.bg = <<>> THEN B ELSE VSub(B, Cur.bg) IN DEq(Norm(Cur, Res(Cur, B, Sg, y, <<>>)), 0)
NonExpansive == (Bound /\ First) =>
   \A d, e \in 1..Len(Cur.ds) :
      LET p == VSub(PDual(Cur, B, Sg, Cur.ds[d]), PDual(Cur, B, Sg, Cur.ds[e]))  v == VSub(Cur.ds[d], Cur.ds[e])
      IN IF Grouped(Cur) THEN DLeq(VNorm2Sq(p), VNorm2Sq(v)) ELSE \A i \in Elems : DLeq(DAbs(p[i]), DAbs(v[i]))
(* the divergence does not descend from the data themselves; its gradient is that of the proximal step there *)
KLStationary == (Bound /\ First /\ Cur.kind = "KL" /\ B # <<>> /\ (\A i \in DOMAIN B : DLt("0.01", B[i]))) =>
                  LET y == IF Cur.bg = <<>> THEN B ELSE VSub(B, Cur.bg)
                  IN VClose(KLDescent(Cur, B, y, <<>>), VConst(0, Len(B)))
DualBall == (Bound /\ First /\ Cur.kind \in {"l1", "l1b", "Hub"}) =>
   \A d \in 1..Len(Cur.ds) : \A i \in Elems : DLe(DAbs(PDual(Cur, B, Sg, Cur.ds[d])[i]), 1)
(* the clipped matrix is in the unit ball of the spectral norm, and the rest is in its normal cone *)
SpectralProjection == Cur.kind = "ln" => \A j \in 1..Len(Cur.mats) :
   LET M == Cur.mats[j]  P == SvClip(M)  R == [i \in 1..Len(M) |-> VSub(M[i], P[i])]
       tol(a, b) == DLe(DAbs(DSub(a, b)), "1e-15")
   IN /\ DLe(Eig(Gram(P))[1], DAdd(1, "1e-15"))
      /\ tol(DSum([i \in 1..Len(M) |-> DDot(R[i], P[i])]), Nuclear(R))
=============================================================================
