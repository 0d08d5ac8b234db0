------------------------------ MODULE Filters -------------------------------
(* Filters of the filtered back-projection: linear convolutions with the     *)
(* classic kernels, with given kernels, and with kernels fitted to the data. *)
(* A kernel is a sequence of N (even) values, of the distances -N/2..N/2-1.  *)
EXTENDS LinAlg, FiniteSets, Emit
Inst == JsonDeserialize("instances.json")
VARIABLES iid
vars == <<iid>>
I == Inst[iid]
Is(k) == I.kind = k
Pi == "3.14159265358979323846264338327950288419716939937510582097494"
VMin(v) == DNeg(VMax(VNeg(v)))

(* size of the convolutions: at least 64, a power of two, and twice the data *)
RECURSIVE Pow2(_, _)
Pow2(n, p) == IF p >= n THEN p ELSE Pow2(n, 2 * p)
PadSize(n) == Pow2(2 * n, 64)

-----------------------------------------------------------------------------
(* the line, continued on both sides *)
Before(n, N) == (N - n + 1) \div 2
ExtIdx(mode, n, k) ==
  CASE k >= 0 /\ k < n -> k + 1
    [] mode = "edge" -> IF k < 0 THEN 1 ELSE n
    [] mode = "wrap" -> (k % n) + 1
    [] mode = "symmetric" -> LET m == k % (2 * n) IN (IF m < n THEN m ELSE 2 * n - 1 - m) + 1
    [] mode = "reflect" -> IF n = 1 THEN 1 ELSE LET m == k % (2 * n - 2) IN (IF m < n THEN m ELSE 2 * n - 2 - m) + 1
    [] OTHER -> 0
Outside(b, mode) == CASE mode = "mean" -> DDiv(DSum(b), Len(b)) [] mode = "maximum" -> VMax(b) [] mode = "minimum" -> VMin(b) [] OTHER -> 0
(* the padded line as a period: index 1 is the first value of the line *)
Padded(b, N, mode) ==
  LET n == Len(b)  bef == Before(n, N)  o == Outside(b, mode)
  IN Force([q \in 1..N |-> LET k == IF q - 1 < N - bef THEN q - 1 ELSE q - 1 - N
                               x == ExtIdx(mode, n, k)
                           IN IF x = 0 THEN o ELSE b[x]])
Convolve(b, h, mode) ==
  LET N == Len(h)  p == Padded(b, N, mode)
  IN Force([i \in 1..Len(b) |-> DSum([k \in 1..N |-> DMul(h[k], p[(((i - 1) - (k - 1 - N \div 2)) % N) + 1])])])
(* without data around, it is the linear convolution *)
Direct(b, h) == LET N == Len(h) IN Force([i \in 1..Len(b) |-> DSum([m \in 1..Len(b) |-> DMul(h[(i - m) + N \div 2 + 1], b[m])])])

-----------------------------------------------------------------------------
(* the classic filters: the samples of the band-limited ramp, times a window of the frequencies *)
RampAt(d) == IF d = 0 THEN "0.5" ELSE IF d % 2 = 0 THEN 0 ELSE DDiv(-2, DMul(DMul(Pi, Pi), d * d))
CosTab(N) == Force([q \in 1..N |-> DCos(DDiv(DMul(DMul(2, Pi), q - 1), N))])
(* half spectrum 0..N/2 of a symmetric kernel given at the distances 0..N/2 *)
Spectrum(f, N, ct) ==
  LET M == N \div 2
  IN Force([k \in 1..(M + 1) |-> DAdd(f[1], DAdd(DMul(f[M + 1], ct[(((k - 1) * M) % N) + 1]), DSum([j \in 1..(M - 1) |-> DMul(2, DMul(f[j + 1], ct[(((k - 1) * j) % N) + 1]))])))])
Sinc(k, N) == IF k = 0 THEN 1 ELSE LET w == DDiv(DMul(Pi, k), N) IN DDiv(DSin(w), w)
(* the Hamming and Hann windows of N samples, from -N/2 to N/2 - 1: their symmetric part *)
Raised(a, m, N) == DSub(a, DMul(DSub(1, a), DCos(DDiv(DMul(DMul(2, Pi), m), N - 1))))
RaisedSym(a, k, N) == DDiv(DAdd(Raised(a, (k + N \div 2) % N, N), Raised(a, (N - k + N \div 2) % N, N)), 2)
Window(name, k, N) ==
  CASE name = "ramp" -> 1
    [] name = "shepp-logan" -> Sinc(k, N)
    [] name = "cosine" -> DAbs(DCos(DDiv(DMul(Pi, k), N)))
    [] name = "hamming" -> RaisedSym("0.54", k, N)
    [] name = "hann" -> RaisedSym("0.5", k, N)
HalfSpectrum(name, angles, N) ==
  LET ct == CosTab(N)  H == Spectrum(Force([j \in 1..(N \div 2 + 1) |-> RampAt(j - 1)]), N, ct)  c == DDiv(Pi, 2 * angles)
  IN Force([k \in DOMAIN H |-> DMul(c, DMul(H[k], Window(name, k - 1, N)))])
Classic(name, angles, N) ==
  IF name = "ramp" THEN Force([q \in 1..N |-> DMul(DDiv(Pi, 2 * angles), RampAt(IF q - 1 < N \div 2 THEN N \div 2 - (q - 1) ELSE q - 1 - N \div 2))])
  ELSE LET ct == CosTab(N)  H == HalfSpectrum(name, angles, N)  half == VScale(DDiv(1, N), Spectrum(H, N, ct))
       IN Force([q \in 1..N |-> half[(IF q - 1 < N \div 2 THEN N \div 2 - (q - 1) ELSE q - 1 - N \div 2) + 1]])

-----------------------------------------------------------------------------
(* bases of kernels: bins of growing sizes (order 0), or hats made orthogonal (order 1) *)
Dist(q, n) == IF q - 1 < (n + 1) \div 2 THEN q - 1 ELSE n - (q - 1)       \* first the distance 0
RECURSIVE ISqrt(_, _)
ISqrt(a, r) == IF (r + 1) * (r + 1) > a THEN r ELSE ISqrt(a, r + 1)
RECURSIVE Bins(_, _, _, _, _)
Bins(w, s, start, type, top) ==
  IF w >= top THEN <<>>
  ELSE LET w2 == w + s
           s2 == IF start < 0 \/ w2 <= start THEN s
                 ELSE CASE type = "exponential" -> 2 * s [] type = "incremental" -> s + 1 [] type = "custom" -> s + ISqrt(w2 - start, 0)
       IN <<<<w, s>>>> \o Bins(w2, s2, start, type, top)
BinsOf(n, start, type) == Bins(0, 1, start, type, n \div 2)
BinBasis(n, bins, norm) == Force([b \in DOMAIN bins |-> Force([q \in 1..n |-> IF bins[b][1] <= Dist(q, n) /\ Dist(q, n) < bins[b][1] + bins[b][2] THEN (IF norm THEN DDiv(1, bins[b][2]) ELSE 1) ELSE 0])])
Hat(n, bin) == Force([q \in 1..n |-> DMax(0, DSub(1, DDiv(Dist(q, n), bin[1] + bin[2])))])
RECURSIVE Orth(_, _, _)
Orth(v, B, k) == IF k = 0 THEN v ELSE LET u == B[k] IN Orth(VSub(v, VScale(DDiv(DDot(u, v), DDot(u, u)), u)), B, k - 1)
RECURSIVE HatBasis(_, _, _)
HatBasis(n, bins, k) == IF k = 0 THEN <<>> ELSE LET B == HatBasis(n, bins, k - 1) IN Append(B, Orth(Hat(n, bins[k]), B, Len(B)))
Basis(n, start, type, order, norm) ==
  LET bins == BinsOf(n, start, type) IN
  IF order = 0 THEN BinBasis(n, bins, norm)
  ELSE LET B == HatBasis(n, bins, Len(bins)) IN IF norm THEN Force([k \in DOMAIN B |-> VScale(DDiv(1, VNorm1(B[k])), B[k])]) ELSE B
Centered(u) == LET n == Len(u) IN Force([q \in 1..n |-> u[((q - 1 + (n - n \div 2)) % n) + 1]])

(* wavelet bases: details of growing scales, and the last approximation; the centre at n/2 *)
Embed(f, n) == LET up == (n - Len(f)) \div 2  lo == n - Len(f) - up IN Force([q \in 1..n |-> IF q > lo /\ q <= lo + Len(f) THEN f[q - lo] ELSE 0])
(* value at twice the scale: between two samples, their mean *)
Dilate(v) == LET n == Len(v) IN Force([q \in 1..n |->
   LET x == (q - 1 - n \div 2) + 1 - (n % 2)          \* twice the coordinate
       f == x \div 2                                   \* floor
       a == f + n \div 2 + 1
   IN IF x % 2 = 0 THEN v[a] ELSE DDiv(DAdd(v[a], v[a + 1]), 2)])
Same(u, v) == LET n == Len(u) IN Force([q \in 1..n |-> LET t == q + ((n - 1) \div 2) IN   \* sum over a + b = t + 1
   DSum([a \in 1..n |-> IF t + 1 - a >= 1 /\ t + 1 - a <= n THEN DMul(u[a], v[t + 1 - a]) ELSE 0])])
RECURSIVE Wav(_, _, _)
Wav(hi, lo, left) == IF left = 0 THEN <<lo>> ELSE LET h2 == Same(Dilate(hi), lo)  l2 == Same(Dilate(lo), lo) IN <<h2>> \o Wav(h2, l2, left - 1)
WavNorm(v, p) == IF p = 1 THEN VNorm1(v) ELSE VNorm2(v)
WaveBasis == LET n == I.n  hi == Embed(I.hi, n)  W == <<hi>> \o Wav(hi, Embed(I.lo, n), I.level - 1)
             IN Force([k \in DOMAIN W |-> VScale(DDiv(1, WavNorm(W[k], I.norm)), W[k])])

-----------------------------------------------------------------------------
(* projectors, as sparse rows <<index, weight>>, with the sinogram (and the image) as a sequence *)
Fwd(rows, x) == Force([r \in DOMAIN rows |-> DSum([k \in DOMAIN rows[r] |-> DMul(rows[r][k][2], x[rows[r][k][1]])])])
LineOf(d, k, n) == [i \in 1..n |-> d[(k - 1) * n + i]]
Flatten(L) == LET n == Len(L[1]) IN [i \in 1..(Len(L) * n) |-> L[((i - 1) \div n) + 1][((i - 1) % n) + 1]]
FilterSino(d, n, h, mode) == Force(Flatten(Force([k \in 1..(Len(d) \div n) |-> Convolve([i \in 1..n |-> d[(k - 1) * n + i]], h, mode)])))
Inside(n, q) == LET y == 2 * ((q - 1) \div n) - (n - 1)  x == 2 * ((q - 1) % n) - (n - 1) IN y * y + x * x <= n * n
(* what the fitted kernels compare: projections of the masked back-projection, and its differences *)
Column(step, h, mode) ==
  LET n == step.n
      img == Fwd(step.cols, FilterSino(step.data, n, h, mode))
      m == Force([q \in DOMAIN img |-> IF Inside(n, q) THEN img[q] ELSE 0])
      dy == [q \in 1..(n * (n - 1)) |-> DSub(m[q + n], m[q])]
      dx == [q \in 1..(n * (n - 1)) |-> LET p == ((q - 1) \div (n - 1)) * n + ((q - 1) % (n - 1)) + 1 IN DSub(m[p + 1], m[p])]
  IN Force(IF ~I.smoothed THEN Fwd(step.rows, m) ELSE Fwd(step.rows, m) \o VScale(I.smooth, dy) \o VScale(I.smooth, dx))
(* a recorded kernel: how far it is from the span of the basis, and how far the misfit is from orthogonal to the columns *)
MrStep(step, B) ==
  LET h == step.kernel
      away == Orth(h, B, Len(B))
      c == Column(step, h, I.mode)
      b == [k \in DOMAIN c |-> IF k <= Len(step.data) THEN step.data[k] ELSE 0]
      res == Force(VSub(c, b))
      cols == Force([k \in DOMAIN B |-> Column(step, B[k], I.mode)])
      slope == VMax([k \in DOMAIN B |-> DDiv(DAbs(DDot(cols[k], res)), DMul(VNorm2(b), DAdd("1e-12", VNorm2(cols[k]))))])
  IN [away |-> DOut(DDiv(VNorm2(away), DAdd("1e-12", VNorm2(h)))), slope |-> DOut(slope), size |-> Len(h),
      fit |-> DOut(DDiv(VNorm2(res), VNorm2(b))), y |-> VOut(FilterSino(step.data, step.n, h, I.mode))]
MrBasis(step) == LET B == Basis(PadSize(step.n), I.start, I.type, 1, FALSE) IN Force([k \in DOMAIN B |-> Centered(B[k])])

-----------------------------------------------------------------------------
(* invariants *)
KernelsOf == CASE Is("apply") -> I.h [] Is("named") -> <<Classic(I.name, I.steps[1].angles, PadSize(Len(I.steps[1].lines[1])))>>
Isolated == (I.kind \in {"apply", "named"} /\ I.mode = "constant") =>
   \A l \in DOMAIN I.steps[1].lines : \A k \in DOMAIN KernelsOf : VClose(Convolve(I.steps[1].lines[l], KernelsOf[k], "constant"), Direct(I.steps[1].lines[l], KernelsOf[k]))
WindowDamps == Is("named") => LET N == PadSize(Len(I.steps[1].lines[1]))  H == HalfSpectrum(I.name, I.steps[1].angles, N)  R == HalfSpectrum("ramp", I.steps[1].angles, N) IN
   /\ \A k \in DOMAIN H : DLeq(0, H[k]) /\ DLeq(H[k], R[k])
   /\ \A k \in 1..(Len(R) - 1) : DLt(R[k], R[k + 1])
   \* the slope is that of the ramp: the frequencies, scaled by the angular step
   /\ \A k \in 3..Len(R) : DLt(DAbs(DSub(R[k], DDiv(DMul(Pi, k - 1), N * I.steps[1].angles))), DDiv("0.02", I.steps[1].angles))
KernelSym == Is("named") => LET h == KernelsOf[1]  N == Len(h) IN \A q \in 2..N : DClose(h[q], h[N + 2 - q])
BasisOf == Basis(I.n, I.start, I.type, I.order, I.norm)
BinsCover == (Is("basis") /\ I.order = 0) => LET bins == BinsOf(I.n, I.start, I.type) IN
   \A q \in 1..I.n : LET hit == {b \in DOMAIN bins : bins[b][1] <= Dist(q, I.n) /\ Dist(q, I.n) < bins[b][1] + bins[b][2]}
                     IN Cardinality(hit) <= 1 /\ (Dist(q, I.n) < I.n \div 2 => Cardinality(hit) = 1)
Orthogonal == Is("basis") => LET B == BasisOf IN \A a, b \in DOMAIN B : a < b => DLe(DAbs(DDot(B[a], B[b])), DMul("1e-30", DMul(VNorm2(B[a]), VNorm2(B[b]))))
BasisSym == Is("basis") => LET B == BasisOf IN \A a \in DOMAIN B : \A q \in 2..I.n : DClose(B[a][q], B[a][I.n + 2 - q])
BasisNorm == (Is("basis") /\ I.norm /\ I.order = 1) => LET B == BasisOf IN \A a \in DOMAIN B : DClose(VNorm1(B[a]), 1)
WaveNorm == Is("wave") => LET B == WaveBasis IN Len(B) = I.level + 1 /\ \A a \in DOMAIN B : DClose(WavNorm(B[a], I.norm), 1)
Adjoint == Is("mr") => \A t \in DOMAIN I.steps : LET S == I.steps[t] IN
   \A r \in DOMAIN S.rows : \A k \in DOMAIN S.rows[r] : \E j \in DOMAIN S.cols[S.rows[r][k][1]] : S.cols[S.rows[r][k][1]][j] = <<r, S.rows[r][k][2]>>

-----------------------------------------------------------------------------
StepLines(s, h) == [l \in DOMAIN s.lines |-> VOut(Convolve(s.lines[l], h, I.mode))]
Fbp == LET s == I.steps[1]  n == s.n  w == VMul(s.data, s.weights)
           h == IF I.name # "" THEN Classic(I.name, Len(s.data) \div n, PadSize(n)) ELSE s.kernel
           x == Fwd(s.cols, FilterSino(w, n, h, I.mode))
           up == IF ~I.capped THEN x ELSE Force([q \in DOMAIN x |-> DMin(x[q], I.hi)])
           low == IF ~I.floored THEN up ELSE Force([q \in DOMAIN x |-> DMax(up[q], I.lo)])
       IN VMul(low, s.mask)
Result ==
  CASE Is("apply") -> [y |-> [t \in DOMAIN I.steps |-> [k \in DOMAIN I.h |-> StepLines(I.steps[t], I.h[k])]]]
    [] Is("named") -> [t \in DOMAIN I.steps |-> LET s == I.steps[t]  N == PadSize(Len(s.lines[1]))  h == Classic(I.name, s.angles, N)
                                                IN [y |-> StepLines(s, h), h |-> VOut(h), f |-> VOut(HalfSpectrum(I.name, s.angles, N))]]
    [] Is("basis") -> LET B == BasisOf IN [b |-> [k \in DOMAIN B |-> VOut(B[k])]]
    [] Is("wave") -> LET B == WaveBasis IN [b |-> [k \in DOMAIN B |-> VOut(B[k])]]
    [] Is("mr") -> [t \in DOMAIN I.steps |-> MrStep(I.steps[t], MrBasis(I.steps[t]))]
    [] Is("fbp") -> [x |-> VOut(Fbp)]
Init == iid \in 1..Len(Inst)
Spec == Init /\ [][UNCHANGED vars]_vars
EmitAll == Emit([iid |-> iid, r |-> Result])
=============================================================================
