------------------------------ MODULE DataTerm ------------------------------
(* Data-fidelity terms f(y; b) of the package, as functions of vectors.     *)
(* A term is a record:                                                      *)
(*   kind : "l2", "wl2", "l2b", "l1", "l1b", "Hub", "KL"                    *)
(*   w    : weights (wl2), err : local error (l2b, l1b, Hub), bg: background*)
(* b is the data, sg the (diagonal) dual step, all of the same length.      *)
(* b = <<>> stands for a term without data, bg = <<>> for no background.    *)
EXTENDS Vec

Eps32 == DDiv(1, 8388608)

Soft(v, t) == DMul(DSgn(v), DMax(DSub(DAbs(v), t), 0))
VSoft(v, t) == [i \in DOMAIN v |-> Soft(v[i], t[i])]
MaskBy(v, m) == IF m = <<>> THEN v ELSE VMul(v, m)
WithBg(t, y) == IF t.bg = <<>> THEN y ELSE VAdd(y, t.bg)
DataAt(b, i) == IF b = <<>> THEN 0 ELSE b[i]

-----------------------------------------------------------------------------
(* Proximal of sg f* (the dual step), elementwise; wt is the ball radius of *)
(* the l1 terms.                                                            *)
Prox1(t, b, sg, d, wt, i) ==
  LET e == DSub(d[i], DMul(sg[i], DataAt(b, i)))
  IN CASE t.kind = "l2"  -> DDiv(e, DAdd(1, sg[i]))
       [] t.kind = "wl2" -> IF DEq(t.w[i], 0) THEN 0 ELSE DDiv(e, DAdd(1, DDiv(sg[i], t.w[i])))
       [] t.kind = "l2b" -> DDiv(Soft(e, DMul(sg[i], DSqrt(t.err[i]))), DAdd(1, DMul(sg[i], t.err[i])))
       [] t.kind = "l1"  -> IF DLe(DAbs(e), wt[i]) THEN e ELSE DMul(DSgn(e), wt[i])
       [] t.kind = "l1b" -> LET s == Soft(e, DMul(sg[i], t.err[i]))
                            IN IF DLe(DAbs(s), wt[i]) THEN s ELSE DMul(DSgn(s), wt[i])
       [] t.kind = "Hub" -> LET s == DDiv(e, DAdd(1, DMul(sg[i], t.err[i])))
                            IN IF DLe(DAbs(s), 1) THEN s ELSE DSgn(s)
       [] t.kind = "KL"  -> LET bb == DMax(DataAt(b, i), 0)
                                dd == DSub(d[i], 1)
                            IN DDiv(DSub(DAdd(1, d[i]),
                                         DSqrt(DAdd(DMul(dd, dd), DMul(4, DMul(sg[i], bb))))), 2)
ProxDual(t, b, sg, d, wt) == [i \in DOMAIN d |-> Prox1(t, b, sg, d, wt, i)]
Ones(v) == VConst(1, Len(v))

(* Proximal of tau f in the primal domain *)
ProxP1(t, b, tau, x, i) ==
  LET bi == DataAt(b, i)  v == DSub(x[i], bi)
  IN CASE t.kind = "l2"  -> DDiv(DAdd(x[i], DMul(tau[i], bi)), DAdd(1, tau[i]))
       [] t.kind = "wl2" -> DDiv(DAdd(x[i], DMul(DMul(tau[i], t.w[i]), bi)), DAdd(1, DMul(tau[i], t.w[i])))
       [] t.kind = "l1"  -> DAdd(bi, Soft(v, tau[i]))
       [] t.kind = "l1b" -> DAdd(bi, DSub(v, DMul(DSgn(v), DMax(0, DMin(tau[i], DSub(DAbs(v), t.err[i]))))))
       [] t.kind = "l2b" -> DAdd(bi, DSub(v, DMul(Soft(v, DSqrt(t.err[i])), DDiv(tau[i], DAdd(tau[i], t.err[i])))))
       [] t.kind = "KL"  -> IF b = <<>>
                            THEN DMax(DSub(x[i], tau[i]), Eps32)
                            ELSE LET u == DSub(x[i], tau[i])
                                 IN DDiv(DAdd(u, DSqrt(DAdd(DMul(u, u), DMul(4, DMul(tau[i], DMax(bi, 0)))))), 2)
ProxPrimal(t, b, tau, x) == [i \in DOMAIN x |-> ProxP1(t, b, tau, x, i)]

-----------------------------------------------------------------------------
(* Residual in the data domain, and its norm *)
Residual(t, b, sg, y, mask) ==
  LET z == WithBg(t, y)
      r == IF b = <<>> THEN z ELSE VSub(b, z)
  IN CASE t.kind \in {"l2", "l1", "l1b", "Hub"} -> MaskBy(r, mask)
       [] t.kind = "wl2" -> MaskBy(VMul(r, t.w), mask)
       [] t.kind = "l2b" -> VSoft(MaskBy(r, mask), [i \in DOMAIN r |-> DMul(sg[i], DSqrt(t.err[i]))])
       [] t.kind = "KL"  -> LET zz == [i \in DOMAIN z |-> DMul(DMax(z[i], Eps32), sg[i])]
                            IN VNeg(MaskBy(ProxDual(t, b, sg, zz, Ones(zz)), mask))

(* minus the gradient of the Kullback-Leibler divergence *)
KLDescent(t, b, y, mask) ==
  LET z == WithBg(t, y)
  IN MaskBy([i \in DOMAIN z |-> DSub(IF b = <<>> THEN 0 ELSE DDiv(DMax(b[i], 0), DMax(z[i], Eps32)), 1)], mask)

ResidualNorm(t, r) ==
  CASE t.kind \in {"l2", "l2b"} -> VNorm2Sq(r)
    [] t.kind = "wl2" -> DSum([i \in DOMAIN r |-> IF DEq(t.w[i], 0) THEN 0 ELSE DDiv(DMul(r[i], r[i]), t.w[i])])
    [] t.kind \in {"l1", "KL"} -> VNorm1(r)
    [] t.kind = "l1b" -> VNorm1(VSoft(r, t.err))
    [] t.kind = "Hub" -> DSum([i \in DOMAIN r |-> IF DLe(DAbs(r[i]), t.err[i]) THEN DMul(r[i], r[i]) ELSE DAbs(r[i])])

UpdateDual(t, sg, d, y) == VAdd(d, VMul(sg, WithBg(t, y)))
DataDualDot(b, d, mask) == IF b = <<>> THEN 0 ELSE DDot(MaskBy(d, mask), b)

-----------------------------------------------------------------------------
(* What makes the two proximals the proximals of one function: Moreau's     *)
(* identity, x = prox_{tau f}(x) + tau prox_{f*/tau}(x / tau).              *)
HasPrimal(t) == t.kind # "Hub"
Moreau(t, b, tau, x) ==
  LET inv == [i \in DOMAIN tau |-> DDiv(1, tau[i])]
      pd == ProxDual(t, b, inv, VMul(x, inv), Ones(x))
  IN VClose(x, VAdd(ProxPrimal(t, b, tau, x), VMul(tau, pd)))
=============================================================================
