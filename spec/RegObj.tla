------------------------------- MODULE RegObj -------------------------------
(* Regularizers as objects: bound to a volume (initialize), then their dual *)
(* is updated with a sequence of volumes, projected, and mapped back.       *)
(* regs.json: a list of records of Reg.tla with, in addition,               *)
(*   shapes : the volume shapes it is bound to, one after the other         *)
(*   xs     : for every shape, the volumes of the updates                   *)
(*   taus   : for every shape, steps of the primal proximal                 *)
(*   ws, ums, lims : weights, masks, limits, for every shape                *)
(*   C      : channels (leading axis), der, chan : norms of VTV (0 = inf)   *)
(*   xref   : reference channel (<<>> when none)                            *)
(*   nrm    : normalized wavelets of the multi-channel kinds                *)
(*   approx : whether the approximation band counts (wavelets)              *)
(*   filt   : Fourier filter                                                *)
(*   lvl, lo, hi, rlo, rhi : levels and filters of the wavelets (the        *)
(*            synthesis ones backwards)                                     *)
(* Kinds, on top of those of Reg.tla: "med", "vtv", "tnv", "fft", "dwl",    *)
(* "swln" (normalized stationary wavelets), "swl" (plain ones).             *)
(* "vwl" (norms over bands and channels), "lnwl" (nuclear norm over them).  *)
EXTENDS Transforms, Emit

R  == JsonDeserialize("regs.json")
NR == Len(R)

-----------------------------------------------------------------------------
(* Wavelets, periodic: matrices of the decomposition by a pair of filters *)
WKind(r) == IF r.kind \in {"vwl", "lnwl"} THEN (IF r.nrm THEN "swln" ELSE "swl") ELSE r.kind
Wavelet(r) == WKind(r) \in {"dwl", "swl", "swln"}
WavMat(r, shape, lo, hi, mode) ==
  LET F(v) == IF r.kind = "dwl" THEN DwtN(v, shape, shape, r.axes, lo, hi, "periodization", r.lvl)
              ELSE Swt(v, shape, r.axes, lo, hi, r.lvl, WKind(r) = "swln", mode)
  IN FromMap(Size(shape), F)
(* the shape of each band: stationary wavelets extend the axes to multiples of 2 ^ level *)
BandShape(r, shape) == IF WKind(r) \in {"swl", "swln"} THEN [a \in 1..Len(shape) |-> IF \E k \in 1..Len(r.axes) : r.axes[k] = a THEN shape[a] + PadLen(shape[a], 2 ^ r.lvl) ELSE shape[a]]
                       ELSE shape
RECURSIVE Bits(_)
Bits(b) == IF b = 0 THEN 0 ELSE (b % 2) + Bits(b \div 2)
RECURSIVE HalfTimes(_, _, _)
HalfTimes(shape, axes, l) == IF l = 0 THEN shape ELSE HalfOn(HalfTimes(shape, axes, l - 1), axes)
(* of a coefficient: its level (1 is the finest), the number of axes along   *)
(* which it is a detail (none: approximation), its place within its band     *)
BandOf(r, shape, i) ==
  LET n == Size(BandShape(r, shape))  nl == 2 ^ Len(r.axes) - 1  k == (i - 1) \div n
  IN IF r.kind # "dwl" THEN
       IF k = 0 THEN [lvl |-> r.lvl, det |-> 0, pos |-> i]
       ELSE [lvl |-> r.lvl - ((k - 1) \div nl), det |-> Bits(((k - 1) % nl) + 1), pos |-> ((i - 1) % n) + 1]
     ELSE IF InCorner(shape, HalfTimes(shape, r.axes, r.lvl), i) THEN [lvl |-> r.lvl, det |-> 0, pos |-> i]
     ELSE LET l == CHOOSE m \in 1..r.lvl : InCorner(shape, HalfTimes(shape, r.axes, m - 1), i) /\ ~InCorner(shape, HalfTimes(shape, r.axes, m), i)
              sub == HalfTimes(shape, r.axes, l)
              isD(a) == (\E m \in 1..Len(r.axes) : r.axes[m] = a) /\ Coord(shape, a, i) >= sub[a]
          IN [lvl |-> l, det |-> Cardinality({a \in 1..Len(shape) : isD(a)}),
              pos |-> FromCoords(shape, [a \in 1..Len(shape) |-> Coord(shape, a, i) - (IF isD(a) THEN sub[a] ELSE 0)], Len(shape)) + 1]
L1Norm(f) == DSum([k \in DOMAIN f |-> DAbs(f[k])])
(* the gain of a band: product of the l1 norms of the filters that lead to it *)
Gain(r, b, lo, hi) ==
  LET d == Len(r.axes)
  IN DMul(DMul(DPow(L1Norm(lo), d - b.det), DPow(L1Norm(hi), b.det)), DPow(L1Norm(lo), d * (b.lvl - 1)))
Bands(r) == r.lvl * (2 ^ Len(r.axes) - 1) + 1
Freq(k, n) == IF 2 * k < n THEN DDiv(k, n) ELSE DDiv(k - n, n)
FreqSq(shape, axes, i) == DSum([k \in 1..Len(axes) |-> LET f == Freq(Coord(shape, axes[k], i), shape[axes[k]]) IN DMul(f, f)])
FftFilter(r, shape, i) ==
  LET f2 == FreqSq(shape, r.axes, i)
  IN CASE r.filt = "delta" -> IF DEq(f2, 0) THEN 0 ELSE 1
       [] r.filt = "exp"   -> DSub(1, DExp(DMul(-12, DSqrt(f2))))
       [] r.filt = "exp2"  -> DSub(1, DExp(DMul(-36, f2)))

(* median of the fs^d neighbourhood, mirrored at the borders *)
Mirror(c, n) == IF c < 0 THEN -1 - c ELSE IF c >= n THEN 2 * n - 1 - c ELSE c
RECURSIVE Neigh(_, _, _, _)
Neigh(fs, shape, i, a) ==
  IF a = 0 THEN <<i>>
  ELSE LET prev == Neigh(fs, shape, i, a - 1)
           at(v, d) == v + (Mirror(Coord(shape, a, v) + d, shape[a]) - Coord(shape, a, v)) * Stride(shape, a)
       IN Force([q \in 1..(fs * Len(prev)) |-> at(prev[((q - 1) \div fs) + 1], ((q - 1) % fs) - (fs \div 2))])
Median(fs, shape, x, i) == LET nb == Neigh(fs, shape, i, Len(shape))
                           vals == SortSeq([q \in 1..Len(nb) |-> x[nb[q]]], LAMBDA u, v : DLt(u, v))
                       IN vals[(Len(vals) + 1) \div 2]

-----------------------------------------------------------------------------
Gram2(M) == [a |-> DSum([i \in 1..Len(M) |-> DMul(M[i][1], M[i][1])]),
             b |-> DSum([i \in 1..Len(M) |-> DMul(M[i][1], M[i][2])]),
             c |-> DSum([i \in 1..Len(M) |-> DMul(M[i][2], M[i][2])])]
Eig2(g) == LET d == DSub(g.a, g.c)
               rr == DSqrt(DAdd(DMul(d, d), DMul(4, DMul(g.b, g.b))))
           IN <<DDiv(DAdd(DAdd(g.a, g.c), rr), 2), DMax(0, DDiv(DSub(DAdd(g.a, g.c), rr), 2))>>
(* singular values of the channels (two of them) along the axes, for each of the other positions *)
SvdLen(r, shape) == Size([k \in 1..Len(r.axes) |-> shape[r.axes[k]]])
SvdRest(r, shape) == Size(shape) \div (2 * SvdLen(r, shape))
SvdRow(r, shape, x, p, ch) == LET n == SvdLen(r, shape) IN [c \in 1..n |-> x[((ch - 1) * SvdRest(r, shape) + p - 1) * n + c]]
SvdScale(r, shape) == DSqrt(2 * SvdLen(r, shape))
SvdGram(r, shape, x, p) == LET u == SvdRow(r, shape, x, p, 1)  v == SvdRow(r, shape, x, p, 2) IN [a |-> DDot(u, u), b |-> DDot(u, v), c |-> DDot(v, v)]
SvdVals(r, shape, x) == LET e == Force([p \in 1..SvdRest(r, shape) |-> Eig2(SvdGram(r, shape, x, p))])
                        IN Force([i \in 1..(2 * Len(e)) |-> DDiv(DSqrt(e[((i - 1) \div 2) + 1][((i - 1) % 2) + 1]), SvdScale(r, shape))])
(* the singular vectors of the last volume, with other values: a function of its Gram matrix *)
SvdClear(r, shape, x) == \A p \in 1..SvdRest(r, shape) : LET e == Eig2(SvdGram(r, shape, x, p)) IN DLe("0.05", e[2]) /\ DLe("0.05", DSub(e[1], e[2]))
SvdBack(r, shape, x, q) ==
  LET n == SvdLen(r, shape)  rest == SvdRest(r, shape)
      P(p) == LET g == SvdGram(r, shape, x, p)  e == Eig2(g)
                  f(k) == DDiv(DMul(q[(p - 1) * 2 + k], SvdScale(r, shape)), DSqrt(e[k]))
                  c == DDiv(DSub(f(1), f(2)), DSub(e[1], e[2]))
                  a == DSub(f(1), DMul(c, e[1]))
                  u == SvdRow(r, shape, x, p, 1)  v == SvdRow(r, shape, x, p, 2)
              IN <<VAdd(VScale(a, u), VScale(c, VAdd(VScale(g.a, u), VScale(g.b, v)))),
                   VAdd(VScale(a, v), VScale(c, VAdd(VScale(g.b, u), VScale(g.c, v))))>>
      all == Force([p \in 1..rest |-> P(p)])
  IN Force([i \in 1..Size(shape) |-> DMul(r.um[i], all[(((i - 1) \div n) % rest) + 1][((i - 1) \div (n * rest)) + 1][((i - 1) % n) + 1])])
Op(r, shape) == CASE r.kind \in {"vtv", "tnv"} -> GradMat(shape, r.axes, r.pad)
                  [] r.kind = "vsvd" -> [i \in 1..(2 * SvdRest(r, shape)) |-> <<>>]  \* not linear: see SvdVals
                  [] r.kind = "fft" -> DftMat(shape, r.axes)
                  [] Wavelet(r) -> WavMat(r, shape, r.lo, r.hi, r.pad)
                  [] OTHER -> RegOp(r, shape)
(* the way back (wavelets have synthesis filters; what was added to extend the axes is removed), and the bands of the coefficients *)
Aux(r, shape, M) == IF Wavelet(r) THEN [back |-> WavMat(r, shape, r.rlo, r.rhi, "zeros"), band |-> Force([i \in 1..Len(M) |-> BandOf(r, shape, i)])]
                   ELSE [back |-> M, band |-> <<>>]
Synth(r, A, c) == MatVec(Transp(A.back), IF WKind(r) # "swl" THEN c ELSE [i \in DOMAIN c |-> DMul(c[i], DPow("0.5", Len(r.axes) * A.band[i].lvl))])

Sigma(r, shape, q, A) ==
  CASE r.kind \in {"vtv", "tnv"} -> "0.5"
    [] r.kind = "fft"  -> FftFilter(r, shape, ((q - 1) % Size(shape)) + 1)
    [] r.kind = "dwl"  -> Gain(r, A.band[q], r.lo, r.hi)
    [] WKind(r) = "swl"  -> DDiv(1, Gain(r, A.band[q], r.lo, r.hi))
    [] WKind(r) = "swln" -> 1
    [] OTHER -> RegSigma(r)

UpdDual(r, shape, M, A, q, x) ==
  CASE r.kind \in {"lowlim", "uplim"} -> VAdd(q, VSub(x, r.lim))
    [] r.kind = "vsvd" -> VAdd(q, SvdVals(r, shape, x))
    [] r.kind = "med" -> [i \in DOMAIN q |-> DAdd(q[i], DSub(x[i], Median(r.fs, shape, x, i)))]
    [] OTHER -> LET u == MatVec(M, x)
                IN [i \in DOMAIN q |-> IF (IF Wavelet(r) THEN ~r.approx /\ A.band[i].det = 0 ELSE FALSE) THEN 0
                                       ELSE DAdd(q[i], DMul(Sigma(r, shape, i, A), u[i]))]

(* VTV: q is indexed by derivative, channel, voxel; e holds the reference too *)
DerNorm(r, e, D, c, n, d, v) ==
  LET at(dd) == e[((dd - 1) * c.nc + c.ch) * n + v]
  IN CASE r.der = 1 -> DAbs(at(d))
       [] r.der = 2 -> DSqrt(DSum([dd \in 1..D |-> DMul(at(dd), at(dd))]))
       [] r.der = 0 -> DSum([dd \in 1..D |-> DAbs(at(dd))])
VtvProx(r, q, D, nc, n, ref) ==
  LET ncr == IF ref = <<>> THEN nc ELSE nc + 1
      e == [i \in 1..(D * ncr * n) |->
              LET v == ((i - 1) % n) + 1  ch == ((i - 1) \div n) % ncr  d == ((i - 1) \div (n * ncr)) + 1
              IN IF ch < nc THEN q[((d - 1) * nc + ch) * n + v] ELSE ref[(d - 1) * n + v]]
      g(d, ch, v) == DerNorm(r, e, D, [nc |-> ncr, ch |-> ch], n, d, v)
      tot(d, ch, v) == CASE r.chan = 1 -> g(d, ch, v)
                         [] r.chan = 2 -> DSqrt(DSum([k \in 1..ncr |-> DMul(g(d, k - 1, v), g(d, k - 1, v))]))
                         [] r.chan = 0 -> DSum([k \in 1..ncr |-> g(d, k - 1, v)])
  IN [i \in DOMAIN q |->
        LET v == ((i - 1) % n) + 1  ch == ((i - 1) \div n) % nc  d == ((i - 1) \div (n * nc)) + 1
            t == tot(d, ch, v)  w == r.w[((ch * n + v - 1) % Len(r.w)) + 1]
        IN IF DLe(t, w) THEN q[i] ELSE DDiv(DMul(q[i], w), t)]

(* TNV: at each voxel, the channels x derivatives matrix has its singular values clipped at one *)
Clip2(l) == IF DLe(l, 1) THEN 1 ELSE DDiv(1, DSqrt(l))
(* (D derivatives or bands; one of the two sides is not longer than two) *)
TnvProx(q, nc, n, D, ref) ==
  LET ncr == IF ref = <<>> THEN nc ELSE nc + 1
      at(d, ch, v) == IF ch > ncr THEN 0 ELSE IF ch <= nc THEN q[((d - 1) * nc + ch - 1) * n + v] ELSE ref[(d - 1) * n + v]
      M(v) == IF D = 2 THEN [ch \in 1..ncr |-> <<at(1, ch, v), at(2, ch, v)>>]
                       ELSE [d \in 1..D |-> <<at(d, 1, v), at(d, 2, v)>>]
      P(v) == LET m == M(v)  g == Gram2(m)  e == Eig2(g)  f1 == Clip2(e[1])  f2 == Clip2(e[2])
                  c == IF DLe(DSub(e[1], e[2]), "1e-25") THEN 0 ELSE DDiv(DSub(f1, f2), DSub(e[1], e[2]))
                  a == DSub(f1, DMul(c, e[1]))
              IN [k \in 1..Len(m) |->
                    <<DAdd(DMul(a, m[k][1]), DMul(c, DAdd(DMul(m[k][1], g.a), DMul(m[k][2], g.b)))),
                      DAdd(DMul(a, m[k][2]), DMul(c, DAdd(DMul(m[k][1], g.b), DMul(m[k][2], g.c))))>>]
      all == [v \in 1..n |-> P(v)]
  IN [i \in DOMAIN q |-> LET v == ((i - 1) % n) + 1  ch == (((i - 1) \div n) % nc) + 1  d == ((i - 1) \div (n * nc)) + 1
                         IN IF D = 2 THEN all[v][ch][d] ELSE all[v][d][ch]]

(* groups of the wavelet coefficients: all the details of a level and position (l12) *)
WavGroup(q, i, A) == LET b == A.band[i]
                     IN IF b.det = 0 THEN DAbs(q[i])
                        ELSE DSqrt(DSum([k \in DOMAIN q |-> IF A.band[k].det > 0 /\ A.band[k].lvl = b.lvl /\ A.band[k].pos = b.pos THEN DMul(q[k], q[k]) ELSE 0]))

ProxD(r, shape, q, ref, A) ==
  LET n == Size(BandShape(r, shape))
  IN CASE r.kind = "vtv" -> VtvProx(r, q, Len(r.axes), r.C, n \div r.C, ref)
       [] r.kind = "tnv" -> TnvProx(q, r.C, n \div r.C, Len(r.axes), ref)
       [] r.kind = "vwl" -> VtvProx(r, q, Bands(r), r.C, n \div r.C, ref)
       [] r.kind = "lnwl" -> TnvProx(q, r.C, n \div r.C, Bands(r), ref)
       [] r.kind = "fft" /\ r.norm = "l12" ->
            [i \in DOMAIN q |-> LET v == ((i - 1) % n) + 1  g == DSqrt(DAdd(DMul(q[v], q[v]), DMul(q[n + v], q[n + v])))
                                IN IF DLe(g, r.w[v]) THEN q[i] ELSE DDiv(DMul(q[i], r.w[v]), g)]
       [] Wavelet(r) /\ r.norm = "l12" ->
            [i \in DOMAIN q |-> LET g == WavGroup(q, i, A) IN IF DLe(g, r.w[1]) THEN q[i] ELSE DDiv(DMul(q[i], r.w[1]), g)]
       [] Wavelet(r) /\ r.norm = "Hub" ->
            [i \in DOMAIN q |-> LET e == DDiv(q[i], DAdd(1, DMul(Sigma(r, shape, i, A), r.err))) IN DDiv(e, DMax(1, DAbs(e)))]
       [] Wavelet(r) -> [i \in DOMAIN q |-> IF DLe(DAbs(q[i]), r.w[1]) THEN q[i] ELSE DMul(DSgn(q[i]), r.w[1])]
       [] r.kind = "med" /\ r.norm = "l2" -> VScale("0.5", q)
       [] OTHER -> RegProxDual(r, q, n)

L1Weighted(r) == r.kind \notin {"tnv", "lnwl", "lowlim", "uplim"} /\ (IsL1(r) \/ r.kind \in {"vtv", "vwl"})
UpdPrimal(r, A, q) ==
  LET u == VMul(Synth(r, A, q), r.um)
  IN IF L1Weighted(r) THEN u ELSE VMul(u, [i \in DOMAIN u |-> r.w[((i - 1) % Len(r.w)) + 1]])

HasPrimalProx(r) == r.kind \in {"id", "lowlim", "uplim"} \/ (r.kind \in {"dwl", "swln", "fft"} /\ r.norm = "l1")
ThresholdWav(r, M, A, x, t) ==
  LET c == MatVec(M, x)
  IN Synth(r, A, [i \in DOMAIN c |-> IF ~r.approx /\ A.band[i].det = 0 THEN c[i] ELSE Soft(c[i], DMul(t, r.w[1]))])
ThresholdFft(r, shape, M, x, tau) ==
  LET c == MatVec(M, x)  n == Size(shape)
      f(i) == FftFilter(r, shape, ((i - 1) % n) + 1)
      v(i) == ((i - 1) % n) + 1
  IN MatVec(Transp(M), [i \in DOMAIN c |-> DAdd(DMul(c[i], DSub(1, f(i))), Soft(DMul(c[i], f(i)), DMul(tau[v(i)], r.w[v(i)])))])
PrimalProx(r, shape, M, A, x, tau) ==
  CASE r.kind \in {"dwl", "swln"} -> ThresholdWav(r, M, A, x, tau[1])
    [] r.kind = "fft" -> ThresholdFft(r, shape, M, x, tau)
    [] OTHER -> RegProxPrimal(r, x, tau)

Steps(r, shape, bi) ==
  LET n == Size(shape)
      base == CASE r.kind \in {"vtv", "tnv", "grad"} -> 2 * Len(r.axes)
                [] r.kind = "lap" -> 4 * Len(r.axes)
                [] WKind(r) = "swln" -> Bands(r)
                [] Wavelet(r) ->
                     LET d == Len(r.axes)  nl == 2 ^ d - 1
                         g(l, det) == Gain(r, [lvl |-> l, det |-> det], r.rlo, r.rhi)
                     IN DAdd(DDiv(2 ^ d, g(r.lvl, 0)), DSum([k \in 1..(r.lvl * nl) |-> DDiv(nl, g(((k - 1) \div nl) + 1, Bits(((k - 1) % nl) + 1)))]))
                [] OTHER -> 1
  IN [i \in 1..n |-> DMul(DMul(base, IF L1Weighted(r) THEN 1 ELSE r.w[((i - 1) % Len(r.w)) + 1]), r.um[i])]

-----------------------------------------------------------------------------
VARIABLES rid, bound, step, q, qu, G, A, ref
vars == <<rid, bound, step, q, qu, G, A, ref>>

(* the record, with the vectors of the shape it is bound to *)
At(i, b) == [w |-> R[i].ws[b], um |-> R[i].ums[b], lim |-> R[i].lims[b]] @@ R[i]
Cur == At(rid, bound)
Shape == R[rid].shapes[bound]

Zero(n) == VConst(0, n)
RefShape(r, shape) == [k \in 1..(Len(shape) - 1) |-> shape[k + 1]]

Init == /\ rid \in 1..NR /\ bound = 0 /\ step = 0 /\ q = <<>> /\ qu = <<>> /\ G = <<>> /\ A = <<>> /\ ref = <<>>

BindTo == /\ bound < Len(R[rid].shapes) /\ (IF bound = 0 THEN TRUE ELSE step = Len(R[rid].xs[bound]))
          /\ bound' = bound + 1 /\ step' = 0
          /\ G' = Op(At(rid, bound'), R[rid].shapes[bound'])
          /\ A' = Aux(At(rid, bound'), R[rid].shapes[bound'], G')
          /\ q' = Zero(Len(G')) /\ qu' = q'
          /\ ref' = IF R[rid].xref = <<>> THEN <<>>
                    ELSE LET sh == RefShape(R[rid], R[rid].shapes[bound'])
                             rr == [At(rid, bound') EXCEPT !.axes = [k \in 1..Len(R[rid].axes) |-> R[rid].axes[k] - 1]]
                             Gr == Op(rr, sh)
                         IN UpdDual(rr, sh, Gr, Aux(rr, sh, Gr), Zero(Len(Gr)), R[rid].xref)
          /\ UNCHANGED rid
Step == /\ bound > 0 /\ step < Len(R[rid].xs[bound])
        /\ step' = step + 1
        /\ qu' = UpdDual(Cur, Shape, G, A, q, R[rid].xs[bound][step'])
        /\ q' = ProxD(Cur, Shape, qu', ref, A)
        /\ UNCHANGED <<rid, bound, G, A, ref>>
Next == BindTo \/ Step
Spec == Init /\ [][Next]_vars

Raw(r) == ~Wavelet(r)        \* the layout of the wavelet coefficients is not part of the behaviour
EmitStep ==
  bound > 0 =>
    Emit([rid |-> rid, bound |-> bound, step |-> step,
          tau |-> IF step = 0 THEN VOut(Steps(Cur, Shape, bound)) ELSE <<>>,
          qu  |-> IF Raw(Cur) THEN VOut(qu) ELSE <<>>,
          q   |-> IF Raw(Cur) THEN VOut(q) ELSE <<>>,
          upd |-> IF Cur.kind # "vsvd" THEN VOut(UpdPrimal(Cur, A, q))
                  ELSE IF step > 0 /\ SvdClear(Cur, Shape, R[rid].xs[bound][step]) THEN VOut(SvdBack(Cur, Shape, R[rid].xs[bound][step], q)) ELSE <<>>,
          pp  |-> IF step > 0 /\ HasPrimalProx(Cur)
                  THEN [u \in 1..Len(R[rid].taus[bound]) |-> VOut(PrimalProx(Cur, Shape, G, A, R[rid].xs[bound][step], R[rid].taus[bound][u]))]
                  ELSE <<>>])

-----------------------------------------------------------------------------
(* Properties *)
(* the l1-type duals stay within the weights *)
WithinWeights ==
  (step > 0 /\ bound > 0) =>
    CASE Cur.kind \in {"grad", "id", "lap"} /\ Cur.norm = "l1" ->
           \A i \in DOMAIN q : DLe(DAbs(q[i]), Cur.w[VoxOf(i, Size(Shape))])
      [] Cur.kind = "grad" /\ Cur.norm = "l12" ->
           \A v \in 1..Size(Shape) : DLeq(GroupNorm(q, v, Size(Shape)), Cur.w[v])
      [] Cur.kind = "lowlim" -> \A i \in DOMAIN q : DLe(q[i], 0)
      [] Cur.kind = "uplim"  -> \A i \in DOMAIN q : DLe(0, q[i])
      [] OTHER -> TRUE
(* constants have no total variation, and the update of the others sums to zero (no padding with zeros) *)
NoDrift == (step > 0 /\ bound > 0 /\ Cur.kind \in {"grad", "lap", "vtv", "tnv"} /\ Cur.pad # "constant" /\ L1Weighted(Cur)
            /\ \A i \in DOMAIN Cur.um : DEq(Cur.um[i], 1)) =>
              DLe(DAbs(DSum(UpdPrimal(Cur, A, q))), "1e-40")
(* the singular values of the last volume give it back *)
SvdInverse == (step > 0 /\ bound > 0 /\ Cur.kind = "vsvd" /\ SvdClear(Cur, Shape, R[rid].xs[bound][step])) =>
                VClose(SvdBack(Cur, Shape, R[rid].xs[bound][step], SvdVals(Cur, Shape, R[rid].xs[bound][step])), VMul(R[rid].xs[bound][step], Cur.um))
(* projecting twice is projecting once *)
Projection == (step > 0 /\ bound > 0 /\ Cur.kind \in {"grad", "id", "lap", "vtv"} /\ ref = <<>> /\ (IsL1(Cur) \/ Cur.kind = "vtv")) =>
                VClose(ProxD(Cur, Shape, q, ref, A), q)
(* the decompositions give the volume back: thresholding by nothing is the identity *)
(* up to the precision that the filters of the wavelets are given with *)
Near(u, v) == \A i \in DOMAIN u : DLe(DAbs(DSub(u[i], v[i])), DMul("1e-9", DAdd(1, L1Norm(v))))
TightFrame == (step > 0 /\ bound > 0 /\ (Wavelet(Cur) \/ Cur.kind = "fft")) =>
                Near(Synth(Cur, A, MatVec(G, R[rid].xs[bound][step])), R[rid].xs[bound][step])
=============================================================================
