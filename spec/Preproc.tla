------------------------------- MODULE Preproc ------------------------------
(* Pre-processing of projections: flat-field and logarithm, padding, shifts, *)
(* rotations, backgrounds from the margins and by clipping (SNIP), Poisson   *)
(* variances and the weights they give, separation of the eigen flat-fields. *)
(* Images are flattened in row-major order; axes are 1-based.                *)
EXTENDS Image, LinAlg, Emit
Inst == JsonDeserialize("instances.json")
VARIABLES iid
vars == <<iid>>
I == Inst[iid]
Is(k) == I.kind = k
EpsF == "1.1920928955078125e-07"     \* single precision
Avg(s) == DDiv(DSum(s), Len(s))
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

-----------------------------------------------------------------------------
(* flat-field correction; an intensity cap; the linearisation *)
AvgImg(imgs) == Force([i \in 1..Len(imgs[1]) |-> Avg([k \in DOMAIN imgs |-> imgs[k][i]])])
Cropped(x) == LET r == I.crop  nu == I.shape[2]  cw == r[4] - r[2]
              IN [q \in 1..((r[3] - r[1]) * cw) |-> x[(r[1] + (q - 1) \div cw) * nu + r[2] + ((q - 1) % cw) + 1]]
Flat(projs, flats, darks) ==
  LET d == IF darks = <<>> THEN VConst(0, Len(projs[1])) ELSE AvgImg(darks)
      f == VSub(AvgImg(flats), d)
      capped(t) == IF I.cap = << >> THEN t ELSE DMin(t, I.cap[1])
  IN [k \in DOMAIN projs |-> Cropped(Force([i \in DOMAIN d |-> capped(DDiv(DSub(projs[k][i], d[i]), f[i]))]))]
FlatNow == Flat(I.projs, I.flats, I.darks)
MinusLog(x) == Force([i \in DOMAIN x |-> LET l == DNeg(DLn(x[i])) IN IF I.floor = << >> THEN l ELSE DMax(l, I.floor[1])])
Scaled(s, imgs) == [k \in DOMAIN imgs |-> VScale(s, imgs[k])]
(* the units of the detector do not matter; flats as projections are ones *)
FlatUnits == Is("flat") => LET s == Flat(Scaled("2.5", I.projs), Scaled("2.5", I.flats), Scaled("2.5", I.darks))
                               t == FlatNow IN \A k \in DOMAIN s : VClose(s[k], t[k])
FlatOnes == Is("flat") => LET o == Flat(<<AvgImg(I.flats)>>, I.flats, I.darks)[1]
                          IN \A i \in DOMAIN o : DClose(o[i], IF I.cap = << >> THEN 1 ELSE DMin(1, I.cap[1]))

(* padding along one axis, with any mode *)
Padded(x) == AlongAxis(x, I.shape, I.axis, I.shape[I.axis] + I.w[1] + I.w[2],
                       LAMBDA l : [k \in 1..(Len(l) + I.w[1] + I.w[2]) |->
                         LET e == Ext(I.mode, Len(l), k - 1 - I.w[1]) IN IF e < 0 THEN I.fill ELSE l[e + 1]])
PadKeeps == Is("pad") => LET p == Padded(I.x)  s == [I.shape EXCEPT ![I.axis] = @ + I.w[1] + I.w[2]]
            IN \A i \in 1..Size(I.shape) : p[FromCoords(s, [a \in DOMAIN s |-> Coord(I.shape, a, i) + (IF a = I.axis THEN I.w[1] ELSE 0)], Len(s)) + 1] = I.x[i]

-----------------------------------------------------------------------------
(* images out of a stack: all axes but the angles (the last but one) *)
NumW == I.shape[Len(I.shape) - 1]
NumU == I.shape[Len(I.shape)]
NumV == IF Len(I.shape) = 3 THEN I.shape[1] ELSE 1
ImgOf(x, w) == Force([q \in 1..(NumV * NumU) |-> x[(((q - 1) \div NumU) * NumW + (w - 1)) * NumU + ((q - 1) % NumU) + 1]])
StackOf(f) == Force([q \in 1..Size(I.shape) |-> LET u == (q - 1) % NumU  w == (((q - 1) \div NumU) % NumW) + 1  v == (q - 1) \div (NumU * NumW)
                                               IN f[w][v * NumU + u + 1]])
(* rotation of each image about its center *)
RotOf(x) == LET ang == DDiv(DMul(I.deg, Pi), 180)
            IN StackOf(Force([w \in 1..NumW |-> Turn(ImgOf(x, w), NumV, NumU, DCos(ang), DSin(ang), DDiv(NumV - 1, 2), DDiv(NumU - 1, 2))]))
(* shifts of each image: linear with clamped ends, or trigonometric (periodic) *)
Clamp0(k, n) == MaxI(0, MinI(k, n - 1))
LinAt(l, t) == LET k == DFloor(t)  f == DSub(t, k) IN DAdd(DMul(DSub(1, f), l[Clamp0(k, Len(l)) + 1]), DMul(f, l[Clamp0(k + 1, Len(l)) + 1]))
(* integer shifts for any size, any shift for odd sizes *)
TrigAt(l, t) == LET n == Len(l)  kern(d) == DDiv(DSum([q \in 1..n |-> DCos(DDiv(DMul(DMul(DMul(2, Pi), q - 1 - (n \div 2)), d), n))]), n)
                IN IF DEq(t, DFloor(t)) THEN l[(DFloor(t) % n) + 1] ELSE DSum([j \in 1..n |-> DMul(l[j], kern(DSub(t, j - 1)))])
ShiftLine(l, s) == Force([k \in DOMAIN l |-> IF I.fft THEN TrigAt(l, DSub(k - 1, s)) ELSE LinAt(l, DSub(k - 1, s))])
ShiftImg(m, sv, su) ==
  LET a == AlongAxis(m, <<NumV, NumU>>, 2, NumU, LAMBDA l : ShiftLine(l, su))
  IN IF Len(I.shape) = 3 THEN AlongAxis(a, <<NumV, NumU>>, 1, NumV, LAMBDA l : ShiftLine(l, sv)) ELSE a
ShiftOf(x, sg) == StackOf(Force([w \in 1..NumW |-> ShiftImg(ImgOf(x, w), DMul(sg, I.sv[w]), DMul(sg, I.su[w]))]))
(* periodic shifts keep the total, and can be undone *)
ShiftBack == (Is("shift") /\ I.fft) => VClose(ShiftOf(ShiftOf(I.x, 1), -1), I.x)
ShiftSum == (Is("shift") /\ I.fft) => DClose(DSum(ShiftOf(I.x, 1)), DSum(I.x))

-----------------------------------------------------------------------------
(* background from the margins: the mean, or a least-squares polynomial, of the mean over the lines *)
MargPos == LET n == I.m[1] + I.m[2] IN [k \in 1..n |-> IF k <= I.m[1] THEN k - 1 ELSE NumU - n + k - 1]
MeanV(x, w, u) == Avg([v \in 1..NumV |-> ImgOf(x, w)[(v - 1) * NumU + u + 1]])
Pow(u, j) == DPow(u, j)
PolyOf(x, w) ==
  LET pos == MargPos  y == Force([k \in DOMAIN pos |-> MeanV(x, w, pos[k])])  d == I.order
  IN Solve(Force([r \in 1..(d + 1) |-> Force([c \in 1..(d + 1) |-> DSum([k \in DOMAIN pos |-> DPow(pos[k], r + c - 2)])])]),
           Force([r \in 1..(d + 1) |-> DSum([k \in DOMAIN pos |-> DMul(DPow(pos[k], r - 1), y[k])])]))
PolyAt(c, u) == DSum([j \in DOMAIN c |-> DMul(c[j], DPow(u, j - 1))])
MarginBg(x) == LET c == Force([w \in 1..NumW |-> PolyOf(x, w)])
               IN Force([q \in 1..(NumW * NumU) |-> PolyAt(c[((q - 1) \div NumU) + 1], (q - 1) % NumU)])
(* the background of a polynomial is itself; it is orthogonal to the misfit on the margins *)
MarginFit == Is("margin") => \A w \in 1..NumW : LET pos == MargPos  c == PolyOf(I.x, w) IN
                DLe(DAbs(DSum([k \in DOMAIN pos |-> DSub(MeanV(I.x, w, pos[k]), PolyAt(c, pos[k]))])), "1e-30")

(* statistics-sensitive clipping: the mean of the shell of the window, if smaller *)
ShellOffsets(nd, h) == {c \in [1..nd -> (-h)..h] : \E a \in 1..nd : c[a] = h \/ c[a] = -h}
SnipStep(x, shape, kd, h) ==
  LET off == ShellOffsets(kd, h)  nd == Len(shape)
      RECURSIVE acc(_, _)
      acc(S, i) == IF S = {} THEN 0
                   ELSE LET o == CHOOSE o \in S : TRUE
                            cs == [a \in 1..nd |-> LET b == a - (nd - kd) IN IF b < 1 THEN Coord(shape, a, i) ELSE Clamp0(Coord(shape, a, i) + o[b], shape[a])]
                        IN DAdd(x[FromCoords(shape, cs, nd) + 1], acc(S \ {o}, i))
      num == Cardinality(off)
  IN Force([i \in DOMAIN x |-> DMin(x[i], DDiv(acc(off, i), num))])
RECURSIVE SnipN(_, _, _, _, _)
SnipN(x, shape, kd, h, n) == IF n = 0 THEN x ELSE SnipN(SnipStep(x, shape, kd, h), shape, kd, h, n - 1)
SnipNow == SnipN(I.x, I.shape, I.kd, I.h, I.n)
(* images can be smoothed by a Gaussian before *)
GaussLine(l, sd) ==
  LET r == DFloor(DAdd(DMul(4, sd), "0.5"))  n == Len(l)
      g(k) == DExp(DDiv(DNeg(DMul(k, k)), DMul(2, DMul(sd, sd))))
      tot == DSum([k \in 1..(2 * r + 1) |-> g(k - 1 - r)])
  IN Force([i \in 1..n |-> DDiv(DSum([k \in 1..(2 * r + 1) |-> DMul(g(k - 1 - r), l[Ext("symmetric", n, i - 1 + k - 1 - r) + 1])]), tot)])
Smoothed(m) == IF I.smooth = << >> THEN m
               ELSE LET a == AlongAxis(m, <<NumV, NumU>>, 2, NumU, LAMBDA l : GaussLine(l, I.smooth[1]))
                    IN IF Len(I.shape) = 3 THEN AlongAxis(a, <<NumV, NumU>>, 1, NumV, LAMBDA l : GaussLine(l, I.smooth[1])) ELSE a
SnipStack(x) == StackOf(Force([w \in 1..NumW |-> LET m == Smoothed(ImgOf(x, w))
                                                IN IF Len(I.shape) = 3 THEN SnipN(m, <<NumV, NumU>>, 2, 1, I.n) ELSE SnipN(m, <<NumU>>, 1, 1, I.n)]))
(* a background lies below the image, and above its minimum *)
SnipBelow == Is("snip") => LET b == SnipNow IN VLe(b, I.x) /\ \A i \in DOMAIN b : \E j \in DOMAIN b : DLeq(I.x[j], b[i])

-----------------------------------------------------------------------------
(* stripes: what the details of the wavelets along the other axes have in common over the angles *)
(* (Fourier-filtered along the angles); the approximation and its transpose is a symmetric kernel *)
Kern == CASE I.wl = "db1" -> <<"0.5", "0.25">>
          [] I.wl = "bior2.2" -> <<"0.5", "0.28125", 0, "-0.03125">>
ApproxLine(l, gap) == LET n == Len(l)  at(k) == l[(k % n) + 1]
                      IN Force([i \in 1..n |-> DAdd(DMul(Kern[1], l[i]),
                           DSum([d \in 1..(Len(Kern) - 1) |-> DMul(Kern[d + 1], DAdd(at(i - 1 - d * gap), at(i - 1 + d * gap)))]))])
RECURSIVE ApproxTo(_, _)
ApproxTo(l, lv) == IF lv = 0 THEN l ELSE ApproxLine(ApproxTo(l, lv - 1), 2 ^ (lv - 1))
OtherAxes == SelectSeq(I.axes, LAMBDA a : a # I.angle)
BigShape == LET p == 2 ^ I.level IN [a \in DOMAIN I.shape |-> IF \E k \in DOMAIN OtherAxes : OtherAxes[k] = a THEN ((I.shape[a] + p - 1) \div p) * p ELSE I.shape[a]]
Off(a) == LET d == BigShape[a] - I.shape[a] IN d - (d \div 2)
Grown(x) == Force([q \in 1..Size(BigShape) |-> x[FromCoords(I.shape, [a \in DOMAIN I.shape |-> Clamp0(Coord(BigShape, a, q) - Off(a), I.shape[a])], Len(I.shape)) + 1]])
Shrunk(y) == Force([q \in 1..Size(I.shape) |-> y[FromCoords(BigShape, [a \in DOMAIN I.shape |-> Coord(I.shape, a, q) + Off(a)], Len(I.shape)) + 1]])
RECURSIVE ApproxAxes(_, _)
ApproxAxes(x, k) == IF k = 0 THEN x ELSE LET y == ApproxAxes(x, k - 1)  a == OtherAxes[k]
                                       IN AlongAxis(y, BigShape, a, BigShape[a], LAMBDA l : ApproxTo(l, I.level))
StripeGain(n, d) == DDiv(DSum([k \in 1..n |-> LET f == DDiv(IF 2 * (k - 1) <= n THEN k - 1 ELSE n - k + 1, n)
                       IN DMul(DExp(DDiv(DNeg(DMul(f, f)), DMul(2, DMul(I.sd, I.sd)))), DCos(DDiv(DMul(DMul(2, Pi), (k - 1) * d), n)))]), n)
StripeLine(l) == LET n == Len(l)  g == Force([d \in 1..n |-> StripeGain(n, d - 1)])
                 IN Force([i \in 1..n |-> DSum([j \in 1..n |-> DMul(g[((i - j) % n) + 1], l[j])])])
Destriped(x) == LET X == Grown(x)  D == VSub(X, ApproxAxes(X, Len(OtherAxes)))
                    G == AlongAxis(D, BigShape, I.angle, BigShape[I.angle], StripeLine)
                IN Shrunk(VSub(X, G))
(* uniform images have no stripes; the total over the angles is that of the approximation *)
StripeFree == Is("destripe") => VClose(Destriped(VConst("1.5", Size(I.shape))), VConst("1.5", Size(I.shape)))

-----------------------------------------------------------------------------
(* variances of Poisson signals and of their ratio to a reference *)
PoissonVar ==
  LET at(i) == LET s == DMax(I.x[i], EpsF)  r == DMax(I.x0[i], EpsF)  v0 == IF I.v0 = <<>> THEN DAbs(I.x0[i]) ELSE I.v0[i]
                   v == DMul(DDiv(DMul(s, s), DMul(r, r)), DAdd(DDiv(DAbs(I.x[i]), DMul(s, s)), DDiv(v0, DMul(r, r))))
               IN IF I.norm THEN DMul(v, Avg([k \in DOMAIN I.x0 |-> DMax(I.x0[k], EpsF)])) ELSE v
  IN IF I.x0 = <<>> THEN VAbs(I.x) ELSE Force([i \in DOMAIN I.x |-> at(i)])

(* weights: inverse variances, limited by the smallest one that counts *)
RECURSIVE SortInto(_, _)
SortInto(s, x) == IF s = <<>> THEN <<x>> ELSE IF DLe(x, Head(s)) THEN <<x>> \o s ELSE <<Head(s)>> \o SortInto(Tail(s), x)
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE SortInto(Sorted(Tail(s)), Head(s))
RECURSIVE Valid(_, _)
Valid(v, k) == IF k = 0 THEN <<>> ELSE Valid(v, k - 1) \o (IF I.mask[k] = 1 THEN <<v[k]>> ELSE <<>>)
Weights(x) ==
  LET v == VAbs(x)  s == Sorted(Valid(v, Len(v)))  tot == DSum(s)
      low == Cardinality({k \in DOMAIN s : DLt(DDiv(DSum(SubSeq(s, 1, k)), tot), I.pct)})
      pos == {k \in DOMAIN s : DLt(0, s[k])}
      least == s[CHOOSE k \in pos : \A j \in pos : k <= j]
      thr == DMax(least, DMax(s[low + 1], EpsF))
      inv(i) == LET a == DMax(v[i], thr)  b == IF I.norm THEN DDiv(a, thr) ELSE a  c == IF I.std THEN DSqrt(b) ELSE b
                IN IF I.semilog THEN DAdd(DLn(DAdd(c, IF I.norm THEN 0 ELSE 1)), 1) ELSE c
  IN Force([i \in DOMAIN v |-> IF I.mask[i] = 1 THEN DDiv(1, inv(i)) ELSE 0])
(* larger variances never weigh more; normalised weights have maximum one *)
WeightOrder == Is("weight") => LET w == Weights(I.x) IN \A i, j \in DOMAIN w :
                 (I.mask[i] = 1 /\ I.mask[j] = 1 /\ DLe(DAbs(I.x[i]), DAbs(I.x[j]))) => DLe(w[j], w[i])
WeightUnit == (Is("weight") /\ I.norm) => DClose(VMax(Weights(I.x)), 1)

-----------------------------------------------------------------------------
(* the flat-fields of a stack of transmissions: the first singular component of the logarithms *)
LogStack == LET d == IF I.darks = <<>> THEN VConst(0, Len(I.imgs[1])) ELSE AvgImg(I.darks)
            IN Force([k \in DOMAIN I.imgs |-> Force([i \in DOMAIN d |-> DLn(IF I.darks = <<>> THEN I.imgs[k][i] ELSE DMax(DSub(I.imgs[k][i], d[i]), EpsF))])])
RECURSIVE Power(_, _, _)
Power(G, v, n) == IF n = 0 THEN v ELSE LET w == MatVec(G, v) IN Power(G, VScale(DDiv(1, VNorm2(w)), w), n - 1)
Leading(L) == Power(Force([a \in DOMAIN L |-> Force([b \in DOMAIN L |-> DDot(L[a], L[b])])]), VConst(1, Len(L)), 300)
EigenFlats == LET L == LogStack  q == Leading(L)  p == MatVec(Transp(L), q)
              IN [k \in 1..I.num |-> Force([i \in DOMAIN p |-> DExp(DMul(q[k], p[i]))])]
EigenProjs == LET L == LogStack  f == EigenFlats IN [k \in 1..I.num |-> Force([i \in DOMAIN f[k] |-> DDiv(DExp(L[k][i]), f[k][i])])]
EigenSettled == Is("eigen") => LET L == LogStack  q == Leading(L)  g == MatVec(L, MatVec(Transp(L), q))
                               IN \A k \in DOMAIN q : DLe(DAbs(DSub(g[k], DMul(q[k], DDot(q, g)))), DMul("1e-9", VNorm2(g)))

-----------------------------------------------------------------------------
Rows(m) == [k \in DOMAIN m |-> VOut(m[k])]
Result ==
  CASE Is("flat") -> [x |-> Rows(FlatNow), l |-> Rows([k \in DOMAIN FlatNow |-> MinusLog(FlatNow[k])])]
    [] Is("pad") -> [x |-> VOut(Padded(I.x))]
    [] Is("rot") -> [x |-> VOut(RotOf(I.x))]
    [] Is("shift") -> [x |-> VOut(ShiftOf(I.x, 1))]
    [] Is("margin") -> [x |-> VOut(MarginBg(I.x))]
    [] Is("snip") -> [x |-> VOut(SnipNow)]
    [] Is("snipstack") -> [x |-> VOut(SnipStack(I.x))]
    [] Is("destripe") -> [x |-> VOut(Destriped(I.x))]
    [] Is("pvar") -> [x |-> VOut(PoissonVar)]
    [] Is("weight") -> [x |-> VOut(Weights(I.x))]
    [] Is("eigen") -> [f |-> Rows(EigenFlats), p |-> Rows(EigenProjs)]
Init == iid \in 1..Len(Inst)
Spec == Init /\ [][UNCHANGED vars]_vars
EmitAll == Emit([iid |-> iid, r |-> Result])
=============================================================================
