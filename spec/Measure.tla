------------------------------- MODULE Measure -------------------------------
(* What is measured on images: binning, circular masks and balls, azimuthal  *)
(* profiles, correlations, crossings of curves, centers of mass, Fourier     *)
(* ring correlation and power spectra, bias and variance, scale and bias.    *)
(* Images are flattened in row-major order; axes are 1-based.                *)
EXTENDS Transforms, Emit
Inst == JsonDeserialize("instances.json")
VARIABLES iid
vars == <<iid>>
I == Inst[iid]
Is(k) == I.kind = k
CeilDiv(a, b) == (a + b - 1) \div b
MinI(a, b) == IF a < b THEN a ELSE b
RECURSIVE MinOf(_)
MinOf(s) == IF Len(s) = 1 THEN s[1] ELSE MinI(Head(s), MinOf(Tail(s)))

(* the remaining axes, and the flat position along them *)
RECURSIVE RestAxes(_, _)
RestAxes(n, axes) == IF n = 0 THEN <<>> ELSE RestAxes(n - 1, axes) \o (IF \E k \in DOMAIN axes : axes[k] = n THEN <<>> ELSE <<n>>)
At(shape, axes, i) == LET s == [k \in DOMAIN axes |-> shape[axes[k]]]
                      IN IF axes = <<>> THEN 1 ELSE FromCoords(s, [k \in DOMAIN axes |-> Coord(shape, axes[k], i)], Len(axes)) + 1
NumAt(shape, axes) == Size([k \in DOMAIN axes |-> shape[axes[k]]])

-----------------------------------------------------------------------------
(* azimuthal integration: each voxel shared linearly between the two nearest radii *)
FreqCoord(n, c) == IF 2 * c < n THEN c ELSE c - n
AxCoord(n, c, dom) == IF dom = "direct" THEN DSub(c, DDiv(n - 1, 2)) ELSE FreqCoord(n, c)
Radius(shape, axes, dom, i) == DSqrt(DSum([k \in DOMAIN axes |-> LET q == AxCoord(shape[axes[k]], Coord(shape, axes[k], i), dom) IN DMul(q, q)]))
Radii(shape, axes, dom) == Force([i \in 1..Size(shape) |-> Radius(shape, axes, dom, i)])
Azi(x, shape, axes, dom) ==
  LET r == Radii(shape, axes, dom)
      fl == Force([i \in DOMAIN r |-> DFloor(r[i])])
      len == VMax(fl) + 2
      rest == RestAxes(Len(shape), axes)
      at == Force([i \in DOMAIN r |-> At(shape, rest, i)])
  IN Force([q \in 1..(NumAt(shape, rest) * len) |->
       LET g == ((q - 1) \div len) + 1  k == (q - 1) % len
       IN DSum([i \in DOMAIN r |-> IF at[i] # g THEN 0
                                   ELSE IF fl[i] = k THEN DMul(DSub(k + 1, r[i]), x[i])
                                   ELSE IF fl[i] + 1 = k THEN DMul(DSub(r[i], fl[i]), x[i]) ELSE 0])])
AziMass == Is("azi") => DClose(DSum(Azi(I.x, I.shape, I.axes, I.dom)), DSum(I.x))

-----------------------------------------------------------------------------
(* normalized cross-correlation of images (all axes): img2 is moved by the lag *)
LagOf(n, full, k) == IF full THEN (IF k < n THEN k ELSE k - (2 * n - 1)) ELSE ((k + (n \div 2)) % n) - (n \div 2)
CorrShape == [a \in DOMAIN I.shape |-> IF I.full THEN 2 * I.shape[a] - 1 ELSE I.shape[a]]
InBox(shape, cs) == \A a \in DOMAIN shape : cs[a] >= 0 /\ cs[a] < shape[a]
Moved(y, shape, lag) ==    \* the moved image, zero outside
  Force([i \in 1..Size(shape) |-> LET cs == [a \in DOMAIN shape |-> Coord(shape, a, i) - lag[a]]
                                  IN IF InBox(shape, cs) THEN y[FromCoords(shape, cs, Len(shape)) + 1] ELSE 0])
Mean(x) == DDiv(DSum(x), Len(x))
Corr1(x, y, shape, lag, tm) ==
  LET m == Moved(y, shape, lag)  cc == DDot(x, m)  n == Size(shape)
      mu == Mean(x)  sd == DSqrt(DDiv(DSum([i \in DOMAIN x |-> LET e == DSub(x[i], mu) IN DMul(e, e)]), n))
      s1 == DSum(m)  s2 == DDot(m, m)
  IN IF tm THEN DDiv(DDiv(DSub(cc, DMul(s1, mu)), DMul(sd, DSqrt(n))), DSqrt(DSub(s2, DDiv(DMul(s1, s1), n))))
     ELSE DDiv(cc, DMul(VNorm2(x), VNorm2(y)))
CorrAll(x, y) == Force([q \in 1..Size(CorrShape) |->
                   Corr1(x, y, I.shape, [a \in DOMAIN I.shape |-> LagOf(I.shape[a], I.full, Coord(CorrShape, a, q))], I.tm)])
CorrProfile(c) ==
  LET axs == [a \in DOMAIN I.shape |-> a]
      p == Azi(c, CorrShape, axs, "fourier")  o == Azi(VConst(1, Len(c)), CorrShape, axs, "fourier")
  IN Force([k \in 1..MinI(MinOf(I.shape), Len(p)) |-> IF DEq(o[k], 0) THEN 0 ELSE DDiv(p[k], o[k])])
(* Cauchy-Schwarz; an image correlates perfectly with itself at lag zero *)
CorrBounded == Is("xcorr") => LET c == CorrAll(I.x, I.y) IN \A q \in DOMAIN c : DLeq(DAbs(c[q]), 1)
CorrPeak == Is("xcorr") => DClose(CorrAll(I.x, I.x)[1], 1)

-----------------------------------------------------------------------------
(* crossing of two sampled curves *)
Above(k) == DLt(I.x[k], I.y[k])
Crossings == {k \in 1..(Len(I.x) - 1) : Above(k) # Above(k + 1) /\ k > I.lims[1] /\ k <= I.lims[2]}
CrossAt(k) == LET d0 == DSub(I.y[k], I.x[k])  d1 == DSub(I.y[k + 1], I.x[k + 1])  t == DDiv(d0, DSub(d0, d1))
              IN <<DAdd(k - 1, t), DAdd(I.x[k], DMul(t, DSub(I.x[k + 1], I.x[k])))>>
Crossing == IF Crossings = {} THEN <<>>
            ELSE CrossAt(IF I.first THEN CHOOSE k \in Crossings : \A j \in Crossings : k <= j
                                    ELSE CHOOSE k \in Crossings : \A j \in Crossings : k >= j)
CrossInside == (Is("cross") /\ Crossing # <<>>) => DLe(0, Crossing[1]) /\ DLe(Crossing[1], Len(I.x) - 1)

(* resolution of masks: where the profile of their auto-correlation (without their means) goes below one half *)
HalfOf(x) == LET mu == Mean(x)  z == Force([i \in DOMAIN x |-> DSub(x[i], mu)])
                 p == CorrProfile(CorrAll(z, z))
                 K == {k \in 1..(Len(p) - 1) : DLt(p[k], "0.5") # DLt(p[k + 1], "0.5")}
                 k == CHOOSE k \in K : \A j \in K : k <= j
             IN [at |-> IF K = {} THEN 0 ELSE DAdd(k - 1, DDiv(DSub(p[k], "0.5"), DSub(p[k], p[k + 1]))),
                 gap |-> DNeg(VMax([i \in DOMAIN p |-> DNeg(DAbs(DSub(p[i], "0.5")))]))]
Halves == Force([m \in DOMAIN I.xs |-> HalfOf(I.xs[m])])
HalfInside == Is("hwhm") => \A m \in 1..1 : LET h == HalfOf(I.xs[m]).at IN DLe(0, h) /\ DLe(h, MinOf(I.shape) - 1)

(* center of mass of the absolute values, from the center of the volume *)
Com(x) == LET a == VAbs(x) IN [k \in DOMAIN I.axes |->
            DDiv(DSum([i \in DOMAIN x |-> DMul(a[i], AxCoord(I.shape[I.axes[k]], Coord(I.shape, I.axes[k], i), "direct"))]), DSum(a))]
ComInside == Is("com") => \A k \in DOMAIN I.axes : DLeq(DAbs(Com(I.x)[k]), DDiv(I.shape[I.axes[k]] - 1, 2))

-----------------------------------------------------------------------------
(* circular masks *)
FineShape == [a \in DOMAIN I.shape |-> I.shape[a] * I.ss]
FineCoord(a, i) == DAdd(DDiv(DSub(Coord(FineShape, a, i), DDiv(FineShape[a] - 1, 2)), I.ss), I.origin[a])
VLen(v) == CASE I.norm = "2" -> VNorm2(v) [] I.norm = "1" -> VNorm1(v) [] I.norm = "inf" -> VMax(VAbs(v))
FineDist(i) == VLen(Force([k \in DOMAIN I.axes |-> FineCoord(I.axes[k], i)]))
MinSize == MinOf([k \in DOMAIN I.axes |-> I.shape[I.axes[k]]])
MaxRadius == DAdd(DDiv(MinSize, 2), I.off)
CutRadius == CASE I.taper = "edge" -> DDiv(MinSize, 2) [] I.taper = "diagonal" -> DDiv(MinSize, DSqrt(2))
               [] I.taper = "size" -> DAdd(DDiv(MinSize, 2), DMax(I.target, I.off)) [] OTHER -> 0
FineMask(d) == IF I.taper = "none" THEN (IF DLe(d, MaxRadius) THEN 1 ELSE 0)
               ELSE IF DLe(d, MaxRadius) THEN (IF DLt(d, CutRadius) THEN 1 ELSE 0)
               ELSE IF DLt(d, CutRadius) THEN DDiv(DAdd(1, DCos(DMul(Pi, DDiv(DSub(d, MaxRadius), DSub(CutRadius, MaxRadius))))), 2) ELSE 0
(* mean over the sub-voxels of voxel p *)
SubIdx(p, s) == FromCoords(FineShape, [a \in DOMAIN I.shape |-> Coord(I.shape, a, p) * I.ss + Coord([b \in DOMAIN I.shape |-> I.ss], a, s)], Len(I.shape)) + 1
NSub == Size([b \in DOMAIN I.shape |-> I.ss])
MaskDists == Force([i \in 1..Size(FineShape) |-> FineDist(i)])
MaskOf(d) == LET f == Force([i \in DOMAIN d |-> FineMask(d[i])])
             IN Force([p \in 1..Size(I.shape) |-> DDiv(DSum([s \in 1..NSub |-> f[SubIdx(p, s)]]), NSub)])
Tie == LET d == MaskDists IN DMin(VMaxI([i \in DOMAIN d |-> DNeg(DAbs(DSub(d[i], MaxRadius)))], Len(d)), 0)
MaskRange == Is("mask") => \A p \in 1..Size(I.shape) : LET m == MaskOf(MaskDists) IN DLe(0, m[p]) /\ DLe(m[p], 1)

(* balls: odd super-sampling; centered on pixel n \div 2 *)
SubDist(n, b, t) == LET nn == n * I.ss  i == (((b * I.ss - (I.ss \div 2) + t) % nn) + nn) % nn IN MinI(i, nn - i)
BallDist(p, s) == DDiv(DSqrt(DSum([a \in DOMAIN I.shape |->
                    LET n == I.shape[a]  b == (Coord(I.shape, a, p) + CeilDiv(n, 2)) % n
                        q == SubDist(n, b, Coord([z \in DOMAIN I.shape |-> I.ss], a, s)) IN q * q])), I.ss)
BallOf == Force([p \in 1..Size(I.shape) |-> DDiv(DSum([s \in 1..NSub |-> LET r == BallDist(p, s) IN
                    IF DLt(r, I.radius) THEN (IF I.func THEN DMul(r, r) ELSE 1) ELSE 0]), NSub)])

-----------------------------------------------------------------------------
(* binning: means over blocks, after cropping the excess around the center *)
Excess(a) == IF I.crop /\ a \in {I.axes[k] : k \in DOMAIN I.axes} THEN I.shape[a] % I.b ELSE 0
Fac(a) == IF a \in {I.axes[k] : k \in DOMAIN I.axes} THEN I.b ELSE 1
BinShape == [a \in DOMAIN I.shape |-> (I.shape[a] - Excess(a)) \div Fac(a)]
BinOf(x) == LET fs == [a \in DOMAIN I.shape |-> Fac(a)]
            IN Force([p \in 1..Size(BinShape) |->
                 DDiv(DSum([s \in 1..Size(fs) |->
                   x[FromCoords(I.shape, [a \in DOMAIN I.shape |-> CeilDiv(Excess(a), 2) + Coord(BinShape, a, p) * Fac(a) + Coord(fs, a, s)], Len(I.shape)) + 1]]), Size(fs))])
BinMean == (Is("bin") /\ \A a \in DOMAIN I.shape : Excess(a) = 0) => DClose(Mean(BinOf(I.x)), Mean(I.x))

-----------------------------------------------------------------------------
(* Fourier ring correlation and power spectrum *)
Dft(x) == MatVec(DftMat(I.shape, I.axes), x)
Half(v, k) == LET n == Len(v) \div 2 IN Force([i \in 1..n |-> v[(k - 1) * n + i]])
Hann(n) == Force([k \in 1..n |-> DDiv(DSub(1, DCos(DDiv(DMul(DMul(2, Pi), k - 1), n - 1))), 2)])
Clamp(k, n) == IF k < 1 THEN 1 ELSE IF k > n THEN n ELSE k
Smooth(p, w) == IF w <= 1 THEN p
                ELSE LET h == Hann(w)  s == DSum(h)
                     IN Force([k \in DOMAIN p |-> DDiv(DSum([j \in 1..w |-> DMul(h[j], p[Clamp(k + j - 1 - (w \div 2), Len(p))])]), s)])
Tapered(x) == IF I.taper = "none" THEN x ELSE VMul(x, MaskOf(MaskDists))
CutOff == MinSize \div 2
Take(p, n) == [k \in 1..n |-> p[k]]
Groups == NumAt(I.shape, RestAxes(Len(I.shape), I.axes))
Row(p, g) == LET n == Len(p) \div Groups IN Force([k \in 1..n |-> p[(g - 1) * n + k]])
Frc0(x, y) ==
  LET fx == Dft(Tapered(x))  fy == Dft(Tapered(y))
      xr == Half(fx, 1)  xi == Half(fx, 2)  yr == Half(fy, 1)  yi == Half(fy, 2)
      cr == Azi(VAdd(VMul(xr, yr), VMul(xi, yi)), I.shape, I.axes, "fourier")
      ci == Azi(VSub(VMul(xi, yr), VMul(xr, yi)), I.shape, I.axes, "fourier")
      ax == Azi(VAdd(VMul(xr, xr), VMul(xi, xi)), I.shape, I.axes, "fourier")
      ay == Azi(VAdd(VMul(yr, yr), VMul(yi, yi)), I.shape, I.axes, "fourier")
      f == Force([k \in DOMAIN cr |-> LET d == DSqrt(DMul(ax[k], ay[k])) IN IF DEq(d, 0) THEN 0 ELSE DDiv(DSqrt(DAdd(DMul(cr[k], cr[k]), DMul(ci[k], ci[k]))), d)])
      n == Len(f) \div Groups
  IN Force([k \in 1..n |-> DDiv(DSum([g \in 1..Groups |-> f[(g - 1) * n + k]]), Groups)])
Frc(x, y) == Take(Smooth(Frc0(x, y), I.smooth), CutOff)
RingSize(k) == IF k = 0 THEN 1 ELSE CASE Len(I.axes) = 1 -> 2 [] Len(I.axes) = 2 -> DMul(DMul(2, Pi), k) [] Len(I.axes) = 3 -> DMul(DMul(4, Pi), k * k)
RingPixels == Azi(VConst(1, Size(I.shape)), I.shape, I.axes, "fourier")
(* the emptiest ring that has pixels, with respect to the fullest *)
Weakest(x, y) ==
  LET pw(f) == LET n == Len(f) \div 2 IN Azi(Force([k \in 1..n |-> DAdd(DMul(f[k], f[k]), DMul(f[n + k], f[n + k]))]), I.shape, I.axes, "fourier")
      ax == Force(pw(Dft(Tapered(x))))  ay == Force(pw(Dft(Tapered(y))))  o == Force(RingPixels)
      low(v) == DDiv(DNeg(VMax([k \in DOMAIN v |-> IF DEq(o[k], 0) THEN DNeg(VMax(v)) ELSE DNeg(v[k])])), DMax(VMax(v), "1e-40"))
  IN DMin(low(ax), low(ay))
(* how many pixels there are in each ring: of a circle of that radius, or counted *)
ThresholdOf(sizes) == Force([k \in 1..CutOff |->
   LET q == DSqrt(sizes[k])  s2 == DMul(2, DSqrt(I.snrt))
   IN DDiv(DAdd(I.snrt, DDiv(DAdd(s2, 1), q)), DAdd(DAdd(I.snrt, 1), DDiv(s2, q)))])
Threshold == ThresholdOf([k \in 1..CutOff |-> RingSize(k - 1)])
(* every pixel is in a ring *)
AllPixels == Is("frc") => DClose(DSum(RingPixels), Size(I.shape))
Power(x) ==
  LET fx == Dft(Tapered(x))  n == Size([k \in DOMAIN I.axes |-> I.shape[I.axes[k]]])
      pw == Force([i \in 1..Size(I.shape) |-> LET m == DMul(n, DAdd(DMul(fx[i], fx[i]), DMul(fx[i + Size(I.shape)], fx[i + Size(I.shape)])))
                                              IN IF I.power = 2 THEN m ELSE DSqrt(m)])
      p == Azi(pw, I.shape, I.axes, "fourier")  o == Azi(VConst(1, Size(I.shape)), I.shape, I.axes, "fourier")
      m == MinSize
      dc2 == DPow(m, Len(I.shape) - (Len(I.shape) - Len(I.axes)))
      dc == IF I.power = 2 THEN dc2 ELSE DSqrt(dc2)
      v == Force([k \in DOMAIN p |-> IF DEq(o[k], 0) THEN 0 ELSE DDiv(DDiv(p[k], o[k]), dc)])
  IN Cat([g \in 1..Groups |-> Take(Smooth(Row(v, g), I.smooth), CutOff)], Groups)
(* between zero and one; one for an image and its multiple *)
FrcUnit == Is("frc") => LET f == Frc0(I.x, I.y) IN \A k \in 1..CutOff : DLe(0, f[k]) /\ DLeq(f[k], 1)
FrcSelf == Is("frc") => LET f == Frc0(I.x, VScale("-2.5", I.x)) IN \A k \in 1..CutOff : DClose(f[k], 1)

-----------------------------------------------------------------------------
(* bias and variance over realizations; scale and bias against a projection *)
Col(i) == [r \in DOMAIN I.recs |-> I.recs[r][i]]
BiasSq(i) == LET b == DSub(Mean(Col(i)), I.x[i]) IN DMul(b, b)
Var(i) == LET c == Col(i)  m == Mean(c) IN DDiv(DSum([r \in DOMAIN c |-> LET e == DSub(c[r], m) IN DMul(e, e)]), Len(c) - 1)
Mse(i) == DDiv(DSum([r \in DOMAIN I.recs |-> LET e == DSub(I.recs[r][i], I.x[i]) IN DMul(e, e)]), Len(I.recs))
Decomposition == Is("bv") => \A i \in DOMAIN I.x : DClose(Mse(i), DAdd(BiasSq(i), DDiv(DMul(Var(i), Len(I.recs) - 1), Len(I.recs))))

ScaleBias == LET px == MatVec(I.R, I.x)  p1 == MatVec(I.R, VConst(1, Len(I.x)))
                 a == DDot(px, px)  b == DDot(px, p1)  d == DDot(p1, p1)  u == DDot(px, I.y)  v == DDot(p1, I.y)
                 det == DSub(DMul(a, d), DMul(b, b))
             IN <<DDiv(DSub(DMul(d, u), DMul(b, v)), det), DDiv(DSub(DMul(a, v), DMul(b, u)), det)>>
Fitted == Is("sb") => LET s == ScaleBias  z == VSub(I.y, MatVec(I.R, VAdd(VScale(s[1], I.x), VConst(s[2], Len(I.x)))))
                      IN DClose(DDot(z, MatVec(I.R, I.x)), 0) /\ DClose(DDot(z, MatVec(I.R, VConst(1, Len(I.x)))), 0)

-----------------------------------------------------------------------------
Result ==
  CASE Is("azi") -> [p |-> VOut(Azi(I.x, I.shape, I.axes, I.dom))]
    [] Is("xcorr") -> LET c == CorrAll(I.x, I.y) IN [c |-> VOut(c), p |-> VOut(CorrProfile(c)), shape |-> CorrShape]
    [] Is("cross") -> [at |-> VOut(Crossing)]
    [] Is("hwhm") -> LET h == Halves  v == Force([m \in DOMAIN h |-> h[m].at]) IN [mean |-> DOut(Mean(v)), min |-> DOut(DNeg(VMax(VScale(-1, v)))), gap |-> VOut(Force([m \in DOMAIN h |-> h[m].gap]))]
    [] Is("com") -> [c |-> VOut(Com(I.x))]
    [] Is("mask") -> [m |-> VOut(MaskOf(MaskDists)), tie |-> DOut(Tie)]
    [] Is("ball") -> [m |-> VOut(BallOf)]
    [] Is("bin") -> [x |-> VOut(BinOf(I.x)), shape |-> BinShape]
    [] Is("frc") -> [f |-> VOut(Frc(I.x, I.y)), t |-> VOut(Threshold), tp |-> VOut(ThresholdOf(RingPixels)), weak |-> DOut(Weakest(I.x, I.y)), tie |-> IF I.taper = "none" THEN 1 ELSE DOut(Tie)]
    [] Is("ps") -> [f |-> VOut(Power(I.x))]
    [] Is("bv") -> [mse |-> [i \in DOMAIN I.x |-> DOut(Mse(i))], bias |-> [i \in DOMAIN I.x |-> DOut(BiasSq(i))], var |-> [i \in DOMAIN I.x |-> DOut(Var(i))]]
    [] Is("sb") -> [s |-> VOut(ScaleBias)]
Init == iid \in 1..Len(Inst)
Spec == Init /\ [][UNCHANGED vars]_vars
EmitAll == Emit([iid |-> iid, r |-> Result])
=============================================================================
