------------------------------- MODULE Solver -------------------------------
(* The iterative reconstruction algorithms as transition systems.           *)
(* One behaviour per instance (and per order of the projections, for SART). *)
(* Instances come from instances.json, see harness/c03.py for their fields. *)
EXTENDS Reg, Emit

Inst == JsonDeserialize("instances.json")
NI   == Len(Inst)

None(v) == v = <<>>
Nx(I) == NCols(I.A)
Mb(I) == NRows(I.A)

\* the adjoint that the operator provides, when it is not exactly the transposed matrix
Trans == [i \in 1..NI |-> IF Inst[i].At = <<>> THEN Transp(Inst[i].A) ELSE Inst[i].At]
Gs    == [i \in 1..NI |-> [r \in 1..Len(Inst[i].regs) |-> RegOp(Inst[i].regs[r], Inst[i].xshape)]]

(* masks: the held-out data are removed from the data of the reconstruction,*)
(* and the masked data from the held-out ones                               *)
BM(I) == IF None(I.tm) THEN I.bm
         ELSE LET m == IF None(I.bm) THEN VConst(1, Mb(I)) ELSE I.bm
              IN [i \in 1..Mb(I) |-> DMul(m[i], DSub(1, I.tm[i]))]
TM(I) == IF None(I.tm) THEN <<>>
         ELSE LET m == IF None(I.bm) THEN VConst(1, Mb(I)) ELSE I.bm IN VMul(I.tm, m)
OnesB(I) == IF None(BM(I)) THEN VConst(1, Mb(I)) ELSE BM(I)
OnesX(I) == IF None(I.xm) THEN VConst(1, Nx(I)) ELSE I.xm

NoZero(v, mx) == [i \in DOMAIN v |-> IF DLe(v[i], DMul(mx, "1e-5")) THEN 1 ELSE v[i]]
Recip(num, v) == [i \in DOMAIN v |-> DDiv(num, v[i])]

RECURSIVE SumTau(_, _, _)
SumTau(I, v, k) == IF k = 0 THEN v ELSE VAdd(RegTau(I.regs[k], Nx(I)), SumTau(I, v, k - 1))

Rows(I, a) == [u \in 1..I.nu |-> I.A[(a - 1) * I.nu + u]]
Sub(I, v, a) == [u \in 1..I.nu |-> v[(a - 1) * I.nu + u]]

(* diagonal pre-conditioning (or scalar steps, when I.L is the norm of A) *)
Scaling(i) ==
  LET I == Inst[i]
  IN CASE I.alg \in {"SIRT", "PDHG", "FISTA"} /\ I.pre ->
            LET nreg == IF I.alg = "FISTA" THEN 0 ELSE Len(I.regs)
                t0 == SumTau(I, VAbs(MatVec(MatAbs(Trans[i]), OnesB(I))), nreg)
                s0 == VAbs(MatVec(MatAbs(I.A), OnesX(I)))
            IN [tau |-> Recip(I.rlx, NoZero(t0, VMax(t0))),
                sigma |-> Recip(IF I.alg = "PDHG" THEN I.rlx ELSE 1, NoZero(s0, VMax(s0)))]
       [] I.alg \in {"PDHG", "FISTA"} /\ ~I.pre ->
            LET t0 == SumTau(I, VConst(I.L, Nx(I)), IF I.alg = "FISTA" THEN 0 ELSE Len(I.regs))
            IN [tau |-> Recip(I.rlx, t0),
                sigma |-> VConst(DDiv(IF I.alg = "PDHG" THEN I.rlx ELSE 1, I.L), Mb(I))]
       [] I.alg = "MLEM" ->
            LET t0 == MatVec(Trans[i], OnesB(I))
            IN [tau |-> NoZero(t0, VMax(t0)), sigma |-> VConst(1, Mb(I))]
       [] I.alg = "SART" ->
            LET t0 == [a \in 1..I.na |-> VAbs(MatVec(Transp(Rows(I, a)), Sub(I, OnesB(I), a)))]
                mt == VMax([a \in 1..I.na |-> VMax(t0[a])])
                s0 == VAbs(MatVec(I.A, OnesX(I)))
            IN [tau |-> [a \in 1..I.na |-> Recip(I.rlx, NoZero(t0[a], mt))],
                sigma |-> Recip(1, NoZero(s0, VMax(s0)))]

Clip(I, x) ==
  LET lo == IF None(I.lo) THEN x ELSE [j \in DOMAIN x |-> DMax(x[j], I.lo[j])]
      hi == IF None(I.hi) THEN lo ELSE [j \in DOMAIN x |-> DMin(lo[j], I.hi[j])]
  IN MaskBy(hi, I.xm)

(* step sizes that the data terms are told about *)
SigmaOf(I, sc) == IF I.alg \in {"SIRT", "PDHG"} THEN sc.sigma ELSE VConst(1, Mb(I))

Res(I, b, sc, x)   == Residual(I.term, b, SigmaOf(I, sc), MatVec(I.A, x), BM(I))
ResN(I, b, sc, x)  == ResidualNorm(I.term, Res(I, b, sc, x))
ResCV(I, b, sc, x) == ResidualNorm(I.tterm, Residual(I.tterm, b, SigmaOf(I, sc), MatVec(I.A, x), TM(I)))
SartN(I, b, x)     == VNorm2(MaskBy(VSub(MatVec(I.A, x), b), I.bm))

Tracks(I)   == \/ I.tol # ""
               \/ ~None(I.tm) /\ I.alg \notin {"MLEM", "SART"}
TracksCV(I) == ~None(I.tm)

Start(i, b) ==
  LET I == Inst[i]
      n == Nx(I)
      x0 == IF None(I.x0) THEN VConst(IF I.alg = "MLEM" THEN 1 ELSE 0, n) ELSE I.x0
      x == IF I.alg \in {"MLEM", "FISTA"} THEN MaskBy(x0, I.xm) ELSE x0
  IN [x |-> x, xr |-> x, p |-> VConst(0, Mb(I)),
      q |-> [r \in 1..Len(I.regs) |-> VConst(0, RegDualLen(I.regs[r], n))],
      t |-> 1, stop |-> FALSE]

-----------------------------------------------------------------------------
(* One iteration *)
RECURSIVE RegsUpd(_, _, _, _)
RegsUpd(I, G, q, k) == IF k = 0 THEN VConst(0, Nx(I))
                       ELSE VAdd(RegUpdatePrimal(I.regs[k], G[k], q[k]), RegsUpd(I, G, q, k - 1))
RegsDual(I, G, q, x) == [r \in 1..Len(I.regs) |->
                           RegProxDual(I.regs[r], RegUpdateDual(I.regs[r], G[r], q[r], x), Nx(I))]

IterSIRT(i, b, sc, s) ==
  LET I == Inst[i]
      res == Res(I, b, sc, s.x)
      q == RegsDual(I, Gs[i], [r \in 1..Len(I.regs) |-> VConst(0, RegDualLen(I.regs[r], Nx(I)))], s.x)
      upd == VSub(MatVec(Trans[i], VMul(res, sc.sigma)), RegsUpd(I, Gs[i], q, Len(I.regs)))
  IN [s EXCEPT !.x = Clip(I, VAdd(s.x, VMul(upd, sc.tau)))]

IterPDHG(i, b, sc, s) ==
  LET I == Inst[i]
      p0 == UpdateDual(I.term, sc.sigma, s.p, MatVec(I.A, s.xr))
      p == MaskBy(ProxDual(I.term, b, sc.sigma, p0, VConst(1, Mb(I))), BM(I))
      q == RegsDual(I, Gs[i], s.q, s.xr)
      upd == VAdd(MatVec(Trans[i], p), RegsUpd(I, Gs[i], q, Len(I.regs)))
      x == Clip(I, VSub(s.x, VMul(upd, sc.tau)))
  IN [s EXCEPT !.x = x, !.xr = VAdd(x, VSub(x, s.x)), !.p = p, !.q = q]

IterFISTA(i, b, sc, s, k) ==
  LET I == Inst[i]
      res == Res(I, b, sc, s.xr)
      g == MatVec(Trans[i], VMul(res, sc.sigma))
      x1 == VAdd(s.xr, VMul(sc.tau, g))
      x2 == IF Len(I.regs) = 0 THEN x1 ELSE RegProxPrimal(I.regs[1], x1, sc.tau)
      x == Clip(I, x2)
      restart == I.restart # 0 /\ k % I.restart = 0
      tn == IF restart THEN 1 ELSE DDiv(DAdd(1, DSqrt(DAdd(1, DMul(4, DMul(s.t, s.t))))), 2)
      mom == IF restart THEN 0 ELSE DDiv(DSub(s.t, 1), tn)
  IN [s EXCEPT !.x = x, !.xr = VAdd(x, VScale(mom, VSub(x, s.x))), !.t = tn]

IterMLEM(i, b, sc, s) ==
  LET I == Inst[i]
      y == WithBg(I.term, MatVec(I.A, s.x))
      ratio == MaskBy([j \in DOMAIN y |-> DDiv(b[j], DMax(y[j], Eps32))], BM(I))
      f == VDiv(MatVec(Trans[i], ratio), sc.tau)
  IN [s EXCEPT !.x = Clip(I, VMul(s.x, f))]

RECURSIVE SartSweep(_, _, _, _, _, _)
SartSweep(i, b, sc, x, ord, k) ==
  IF k > Len(ord) THEN x
  ELSE LET I == Inst[i]  a == ord[k]
           r == MaskBy(VSub(MatVec(Rows(I, a), x), Sub(I, b, a)), IF None(I.bm) THEN <<>> ELSE Sub(I, I.bm, a))
           u == MatVec(Transp(Rows(I, a)), VMul(r, Sub(I, sc.sigma, a)))
       IN SartSweep(i, b, sc, Clip(I, VSub(x, VMul(u, sc.tau[a]))), ord, k + 1)

Iterate(i, b, sc, s, ord, k) ==
  CASE Inst[i].alg = "SIRT"  -> IterSIRT(i, b, sc, s)
    [] Inst[i].alg = "PDHG"  -> IterPDHG(i, b, sc, s)
    [] Inst[i].alg = "FISTA" -> IterFISTA(i, b, sc, s, k)
    [] Inst[i].alg = "MLEM"  -> IterMLEM(i, b, sc, s)
    [] Inst[i].alg = "SART"  -> [s EXCEPT !.x = SartSweep(i, b, sc, s.x, ord, 1)]

(* SIRT and MLEM look at the residual before the update, the others after *)
Before(I) == I.alg \in {"SIRT", "MLEM"}

-----------------------------------------------------------------------------
VARIABLES iid, ord, sc, s, s2, k, phase, res, rcv, xs

vars == <<iid, ord, sc, s, s2, k, phase, res, rcv, xs>>

Cur == Inst[iid]

Perms(n) == {f \in [1..n -> 1..n] : \A a, c \in 1..n : a # c => f[a] # f[c]}

NormOf(x) == IF Cur.alg = "SART" THEN SartN(Cur, Cur.b, x) ELSE ResN(Cur, Cur.b, sc, x)

Init == /\ iid \in 1..NI
        /\ ord \in (IF Cur.alg = "SART" THEN Perms(Cur.na) ELSE {<<>>})
        /\ sc = Scaling(iid)
        /\ s = Start(iid, Cur.b)
        /\ s2 = IF None(Cur.b2) THEN <<>> ELSE Start(iid, Cur.b2)
        /\ k = 0
        /\ res = IF Tracks(Cur) THEN <<NormOf(s.x)>> ELSE <<>>
        /\ rcv = IF TracksCV(Cur) THEN <<ResCV(Cur, Cur.b, sc, s.x)>> ELSE <<>>
        /\ xs = <<s.x>>
        /\ phase = IF Cur.K = 0 THEN "done" ELSE "iter"

(* look at the residual of x (after the update, or before it) and decide *)
Watch(x) == /\ res' = IF Tracks(Cur) THEN Append(res, NormOf(x)) ELSE res
            /\ rcv' = IF TracksCV(Cur) THEN Append(rcv, ResCV(Cur, Cur.b, sc, x)) ELSE rcv
Below == Cur.tol # "" /\ DLt(res'[Len(res')], Cur.tol)

StopBefore == /\ phase = "iter" /\ Before(Cur)
              /\ Watch(s.x) /\ Below
              /\ k' = k + 1 /\ phase' = "done"
              /\ UNCHANGED <<iid, ord, sc, s, s2, xs>>

UpdateBefore == /\ phase = "iter" /\ Before(Cur)
                /\ Watch(s.x) /\ ~Below
                /\ s' = Iterate(iid, Cur.b, sc, s, ord, k + 1)
                /\ s2' = IF None(Cur.b2) THEN s2 ELSE Iterate(iid, Cur.b2, sc, s2, ord, k + 1)
                /\ k' = k + 1 /\ phase' = IF k + 1 = Cur.K THEN "done" ELSE "iter"
                /\ xs' = Append(xs, s'.x)
                /\ UNCHANGED <<iid, ord, sc>>

UpdateAfter == /\ phase = "iter" /\ ~Before(Cur)
               /\ s' = Iterate(iid, Cur.b, sc, s, ord, k + 1)
               /\ s2' = IF None(Cur.b2) THEN s2 ELSE Iterate(iid, Cur.b2, sc, s2, ord, k + 1)
               /\ Watch(s'.x)
               /\ k' = k + 1 /\ phase' = IF k + 1 = Cur.K \/ Below THEN "done" ELSE "iter"
               /\ xs' = Append(xs, s'.x)
               /\ UNCHANGED <<iid, ord, sc>>

Next == StopBefore \/ UpdateBefore \/ UpdateAfter
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties *)
Updated == Len(xs) > 1
InMask(j) == None(Cur.xm) \/ ~DEq(Cur.xm[j], 0)

(* every iterate is within the limits, and zero out of the mask *)
LimitsHold == Updated => \A j \in 1..Nx(Cur) :
                 IF InMask(j) THEN /\ None(Cur.lo) \/ DLe(Cur.lo[j], s.x[j])
                                   /\ None(Cur.hi) \/ DLe(s.x[j], Cur.hi[j])
                 ELSE DEq(s.x[j], 0)

(* masked and held-out data (b2 differs from b only there) have no influence *)
NonInterference == ~None(Cur.b2) => VEq(s.x, s2.x)

(* an exact, feasible starting point is not left *)
FixedPoint == Cur.fixed => VClose(s.x, Cur.x0)

(* the dual variables stay in their domain *)
DualDomain == Cur.alg = "PDHG" =>
                /\ Cur.term.kind \in {"l1", "l1b", "Hub"} => \A j \in 1..Mb(Cur) : DLeq(DAbs(s.p[j]), 1)
                /\ Cur.term.kind = "KL" => \A j \in 1..Mb(Cur) : DLeq(s.p[j], 1)
                /\ \A r \in 1..Len(Cur.regs) : Cur.regs[r].norm = "l1" =>
                     \A j \in DOMAIN s.q[r] : DLeq(DAbs(s.q[r][j]), Cur.regs[r].w[VoxOf(j, Nx(Cur))])

(* the iterates of SIRT never increase the scaled residual *)
SirtDescent ==
  (Cur.alg = "SIRT" /\ Cur.term.kind = "l2" /\ Len(Cur.regs) = 0 /\ None(Cur.lo) /\ None(Cur.hi) /\ DLe(Cur.rlx, 2) /\ Len(xs) > 2) =>
    LET E(x) == LET r == Res(Cur, Cur.b, sc, x) IN DDot(r, VMul(r, sc.sigma))
    IN DLeq(E(xs[Len(xs)]), E(xs[Len(xs) - 1]))

(* MLEM: non-negative, and preserves the total of the (seen) data *)
MlemCounts == (Cur.alg = "MLEM" /\ Updated) =>
                /\ \A j \in 1..Nx(Cur) : DLe(0, s.x[j])
                /\ Cur.counts => DClose(DDot(s.x, sc.tau), DDot(Cur.b, OnesB(Cur)))

(* the iterations are counted, and there is one residual per iteration *)
Books == /\ k <= Cur.K
         /\ Len(xs) \in {k, k + 1}
         /\ Tracks(Cur) => Len(res) = k + 1
         /\ TracksCV(Cur) => Len(rcv) = k + 1
         /\ phase = "done" => (k = Cur.K \/ (Cur.tol # "" /\ DLt(res[Len(res)], Cur.tol)))

(* the norm of the Huber term jumps there: not judged *)
Kink(t, x, m) == t.kind = "Hub" /\ LET r == Residual(t, Cur.b, SigmaOf(Cur, sc), MatVec(Cur.A, x), m)
                                   IN \E j \in DOMAIN r : DLt(DAbs(DSub(DAbs(r[j]), t.err[j])), "1e-9")
AnyKink == \E j \in 2..Len(xs) : Kink(Cur.term, xs[j], BM(Cur)) \/ (TracksCV(Cur) /\ Kink(Cur.tterm, xs[j], TM(Cur)))

EmitDone == phase = "done" => Emit([iid |-> iid, ord |-> ord, k |-> k, kink |-> AnyKink, res |-> VOut(res), rcv |-> VOut(rcv),
                                    xs |-> [j \in 1..Len(xs) |-> VOut(xs[j])]])
=============================================================================
