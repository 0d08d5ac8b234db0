-------------------------------- MODULE Align -------------------------------
(* Alignment of projections: the displacement between images that maximises  *)
(* their circular cross-correlation (refined by the parabola through the     *)
(* maximum and its neighbours), or minimises their distance; detector shifts *)
(* and centers of rotation from them, from centers of mass, from profiles;   *)
(* changes of the shifts that move a volume to a given place.                *)
(* Images are flattened in row-major order.                                  *)
EXTENDS Transforms, LinAlg, Emit
Inst == JsonDeserialize("instances.json")
VARIABLES iid
vars == <<iid>>
I == Inst[iid]
Is(k) == I.kind = k
Avg(s) == DDiv(DSum(s), Len(s))
MinI(a, b) == IF a < b THEN a ELSE b
FreqCoord(n, c) == IF 2 * c < n THEN c ELSE c - n
Coords(shape, i) == [a \in DOMAIN shape |-> Coord(shape, a, i)]
At(shape, cs) == FromCoords(shape, cs, Len(shape)) + 1
AllLess(cs, shape) == \A a \in DOMAIN shape : cs[a] < shape[a]
VMin(v) == DNeg(VMax(VNeg(v)))

-----------------------------------------------------------------------------
(* the image in the first corner of a larger one; the image without its margins *)
Extended(x, shape, new) == IF shape = new THEN x
  ELSE Force([i \in 1..Size(new) |-> LET cs == Coords(new, i) IN IF AllLess(cs, shape) THEN x[At(shape, cs)] ELSE 0])
Masked(x, shape, m) == Force([i \in DOMAIN x |-> IF \A a \in DOMAIN shape : Coord(shape, a, i) >= m /\ Coord(shape, a, i) < shape[a] - m THEN x[i] ELSE 0])
Roll(x, shape, s) == Force([i \in DOMAIN x |-> x[At(shape, [a \in DOMAIN shape |-> (Coord(shape, a, i) - s[a]) % shape[a]])]])

(* cross-correlation of d and p at all the lags: of the images themselves, or of their phases *)
CrossCorr(d, p, shape) ==
  Force([t \in 1..Size(shape) |-> DSum([i \in DOMAIN p |-> DMul(p[i], d[At(shape, [a \in DOMAIN shape |-> (Coord(shape, a, i) + Coord(shape, a, t)) % shape[a]])])])])
EpsF == "1.1920928955078125e-07"
PhaseCorr(d, p, shape) ==
  LET n == Size(shape)
      m == Force(DftMat(shape, [a \in DOMAIN shape |-> a]))
      fd == VScale(DSqrt(n), MatVec(m, d))  fp == VScale(DSqrt(n), MatVec(m, p))
      re == Force([k \in 1..n |-> DAdd(DMul(fd[k], fp[k]), DMul(fd[n + k], fp[n + k]))])
      im == Force([k \in 1..n |-> DSub(DMul(fd[n + k], fp[k]), DMul(fd[k], fp[n + k]))])
      w == Force([k \in 1..n |-> DDiv(1, DMax(DSqrt(DAdd(DMul(re[k], re[k]), DMul(im[k], im[k]))), EpsF))])
      c == Force([k \in 1..(2 * n) |-> DMul(w[((k - 1) % n) + 1], IF k <= n THEN re[k] ELSE im[k - n])])
  IN MatVec(Transp(m), c)

(* the first maximum; what separates it from the others; its refined position *)
Top(c) == CHOOSE i \in DOMAIN c : (\A j \in DOMAIN c : DLe(c[j], c[i])) /\ (\A j \in 1..(i - 1) : DLt(c[j], c[i]))
Gap(c) == LET i == Top(c)  rest == [j \in 1..(Len(c) - 1) |-> c[IF j < i THEN j ELSE j + 1]]
          IN DDiv(DSub(c[i], VMax(rest)), DMax(VMax(VAbs(c)), "1e-20"))
Vertex(l, m, r) == DDiv(DSub(l, r), DMul(2, DAdd(DSub(l, DMul(2, m)), r)))
Whole(c, shape) == LET i == Top(c) IN [a \in DOMAIN shape |-> FreqCoord(shape[a], Coord(shape, a, i))]
Refined(c, shape) ==
  LET i == Top(c)  cs == Coords(shape, i)
      at(a, o) == c[At(shape, [cs EXCEPT ![a] = (@ + o) % shape[a]])]
  IN Force([a \in DOMAIN shape |-> Vertex(at(a, -1), c[i], at(a, 1))])
Place(c, shape, sub) == LET w == Whole(c, shape) IN IF sub THEN VAdd(w, Refined(c, shape)) ELSE w

(* shifts of each image of d with respect to those of p (one for all, or one each) *)
Of(p, k) == p[IF Len(p) = 1 THEN 1 ELSE k]
CorrOf(d, p) == IF I.norm THEN PhaseCorr(d, p, I.new) ELSE CrossCorr(d, p, I.new)
Corrs == Force([k \in DOMAIN I.d |-> CorrOf(Extended(I.d[k], I.shape, I.new), Extended(Masked(Of(I.p, k), I.shape, I.margin), I.shape, I.new))])
XC == LET c == Corrs IN [s |-> [k \in DOMAIN c |-> Place(c[k], I.new, I.sub)], gap |-> [k \in DOMAIN c |-> Gap(c[k])]]
(* images moved by whole pixels give their displacement back *)
Found == (Is("xc") /\ I.moved # <<>>) =>
           LET c == Corrs IN \A k \in DOMAIN c : DLt("1e-9", Gap(c[k])) => \A a \in DOMAIN I.shape : (Whole(c[k], I.new)[a] - I.moved[k][a]) % I.new[a] = 0
(* exchanging the images gives the opposite, at the same place *)
Mirror == (Is("xc") /\ ~I.norm /\ Len(I.shape) = 1) =>
            \A k \in DOMAIN I.d : LET a == Extended(I.d[k], I.shape, I.new)  b == Extended(Of(I.p, k), I.shape, I.new)
                                      ab == CrossCorr(a, b, I.new)  ba == CrossCorr(b, a, I.new)
                                  IN \A t \in DOMAIN ab : DClose(ab[t], ba[((Len(ab) - (t - 1)) % Len(ab)) + 1])
(* no lag is better than zero for an image and itself *)
SelfZero == Is("xc") => \A k \in DOMAIN I.d : LET c == CrossCorr(I.d[k], I.d[k], I.shape) IN \A t \in DOMAIN c : DLeq(c[t], c[1])

(* distances of the lines, in a range of shifts *)
SadShifts(r) == 2 * r + 1
PadSides(x, w, edge) == [k \in 1..(Len(x) + 2 * w) |-> IF k <= w THEN (IF edge THEN x[1] ELSE 0) ELSE IF k > w + Len(x) THEN (IF edge THEN x[Len(x)] ELSE 0) ELSE x[k - w]]
SadOf(d, p) ==
  LET w == IF I.pad THEN I.range ELSE 0
      a == Force(PadSides(d, w, TRUE))  b == Force(PadSides(p, w, FALSE))  n == Len(a)  m == SadShifts(I.range)
      dist(s) == LET e == [i \in 1..n |-> DSub(a[i], b[((i - 1 - s) % n) + 1])] IN IF I.l1 THEN VNorm1(e) ELSE VNorm2(e)
  IN Force([t \in 1..m |-> DNeg(dist(FreqCoord(m, t - 1)))])
SAD == LET c == [k \in DOMAIN I.d |-> SadOf(I.d[k], I.p[k])]
       IN [s |-> [k \in DOMAIN c |-> Place(c[k], <<SadShifts(I.range)>>, I.sub)], gap |-> [k \in DOMAIN c |-> Gap(c[k])]]

-----------------------------------------------------------------------------
(* the line through the displacements of the rows, and the tilt of the camera *)
Tilt == LET n == Len(I.d)  y == [k \in 1..n |-> DDiv(XC.s[k][1], 2)]
            f == LeastSquares(Force([k \in 1..n |-> <<1, DSub(k - 1, DDiv(n - 1, 2))>>]), Force(y))
        IN [cor |-> f[1], tilt |-> DNeg(DDiv(DMul(f[2], 180), Pi)), gap |-> XC.gap]

(* sinusoids of any amplitude, phase and bias *)
SinRows(angs) == Force([k \in DOMAIN angs |-> <<DSin(angs[k]), DCos(angs[k]), 1>>])
SinResidual(angs, y) == FitResidual(SinRows(angs), y)
SinBias(angs, y) == LeastSquares(SinRows(angs), y)[3]

(* shifts that are too large count as zero *)
Kept(s) == [a \in DOMAIN s |-> IF DLt(I.max[a], DAbs(s[a])) THEN 0 ELSE s[a]]
Near(s) == VMin([a \in DOMAIN s |-> DAbs(DSub(I.max[a], DAbs(s[a])))])    \* distance from the limit
Between(a, b) == LET c == CrossCorr(a, b, I.shape) IN [s |-> Place(c, I.shape, TRUE), gap |-> Gap(c)]
Gaps(pairs) == [k \in DOMAIN pairs |-> DMin(pairs[k].gap, Near(pairs[k].s))]
(* a detector axis at a time; several detectors count as one, on average *)
AvgShift(shifts) == Force([a \in DOMAIN shifts[1] |-> Avg([k \in DOMAIN shifts |-> shifts[k][a]])])
Pairs(a, b) == Force([k \in DOMAIN I.dets |-> Between(I.dets[k][a], I.dets[k][b])])
PairShift(a, b) == LET p == Pairs(a, b) IN [s |-> AvgShift([k \in DOMAIN p |-> Kept(p[k].s)]), gap |-> Gaps(p)]

NumW == Len(I.dets[1])
NAx == Len(I.shape)
(* positions of the angles in increasing order *)
Order == [k \in 1..NumW |-> CHOOSE w \in 1..NumW : Cardinality({j \in 1..NumW : DLt(I.ang[j], I.ang[w])}) = k - 1]
XcVU ==
  LET o == Force(Order)
      rel == Force([k \in 1..NumW |-> IF k = 1 THEN [s |-> VConst(0, NAx), gap |-> <<1>>] ELSE PairShift(o[k - 1], o[k])])
      cum == Force([a \in 1..NAx |-> Force([k \in 1..NumW |-> DSum([j \in 1..k |-> rel[j].s[a]])])])
      angs == Force([k \in 1..NumW |-> I.ang[o[k]]])
      u == SinResidual(angs, cum[NAx])
      v == IF NAx = 2 THEN VSub(cum[1], VConst(Avg(cum[1]), NumW)) ELSE <<>>
      pos == [w \in 1..NumW |-> CHOOSE k \in 1..NumW : o[k] = w]
      lim == [k \in 1..NumW |-> IF DLt(I.max[NAx], DAbs(u[k])) THEN 0 ELSE u[k]]
  IN [u |-> [w \in 1..NumW |-> lim[pos[w]]], v |-> IF NAx = 2 THEN [w \in 1..NumW |-> v[pos[w]]] ELSE <<>>,
      gap |-> [k \in 1..NumW |-> DMin(VMin(rel[k].gap), DAbs(DSub(DAbs(u[k]), I.max[NAx])))]]
(* the residual is orthogonal to all the sinusoids *)
NoSinLeft == Is("fitvu") => LET o == Order  angs == [k \in 1..NumW |-> I.ang[o[k]]]  y == [k \in 1..NumW |-> DMul(k, k)]
                                r == SinResidual(angs, y) IN \A c \in 1..3 : DLe(DAbs(DDot(r, Transp(SinRows(angs))[c])), "1e-30")
(* images, or their horizontal derivatives *)
DiffU(x) == LET nu == I.shape[NAx]  m == nu - 1
            IN Force([k \in 1..(Len(x) \div nu) * m |-> LET p == ((k - 1) \div m) * nu + ((k - 1) % m) + 1 IN DSub(x[p + 1], x[p])])
PairBetween(a, b) == IF I.diff THEN LET c == CrossCorr(DiffU(a), DiffU(b), [I.shape EXCEPT ![NAx] = @ - 1])
                                    IN [s |-> Place(c, [I.shape EXCEPT ![NAx] = @ - 1], TRUE), gap |-> Gap(c)]
                     ELSE Between(a, b)
Drifts == LET r == [k \in 1..NumW |-> LET b == IF I.ref = <<>> THEN Force([d \in DOMAIN I.dets |-> I.dets[d][1]]) ELSE [d \in DOMAIN I.dets |-> Of(I.ref[d], k)]
                                          p == Force([d \in DOMAIN I.dets |-> PairBetween(b[d], I.dets[d][k])])
                                      IN [s |-> AvgShift([d \in DOMAIN p |-> Kept(p[d].s)]), gap |-> Gaps(p)]]
          IN [s |-> [k \in 1..NumW |-> r[k].s], gap |-> [k \in 1..NumW |-> VMin(r[k].gap)]]

(* center of rotation from opposite projections: half of the shift, with opposite sign *)
FlipU(x) == LET nu == I.shape[NAx] IN Force([i \in DOMAIN x |-> LET r == (i - 1) \div nu  u == (i - 1) % nu IN x[r * nu + nu - u]])
Opposite(a, b) == LET p == Force([d \in DOMAIN I.dets |-> Between(I.dets[d][a], FlipU(I.dets[d][b]))])
                  IN [c |-> DNeg(DDiv(AvgShift([d \in DOMAIN p |-> Kept(p[d].s)])[NAx], 2)), gap |-> VMin(Gaps(p))]
Closest(t) == CHOOSE w \in 1..NumW : \A j \in 1..NumW : DLe(DAbs(DSub(I.ang[w], t)), DAbs(DSub(I.ang[j], t)))
First == CHOOSE w \in 1..NumW : \A j \in 1..NumW : DLe(I.ang[w], I.ang[j])
Half180 == Opposite(First, Closest(DAdd(I.ang[First], Pi)))
Half360 == LET num == Cardinality({w \in 1..NumW : DLt(I.ang[w], DAdd(I.ang[1], DSub(Pi, "1e-5")))})
               r == Force([w \in 1..num |-> Opposite(w, Closest(DAdd(I.ang[w], Pi)))])
           IN [c |-> Avg([w \in 1..num |-> r[w].c]), gap |-> VMin([w \in 1..num |-> r[w].gap])]

-----------------------------------------------------------------------------
(* vertical shifts from the profiles of the projections, with respect to the middle angle *)
Scaled01(l) == LET lo == VMin(l)  hi == VMax(l) IN Force([k \in DOMAIN l |-> DDiv(DSub(l[k], lo), DSub(hi, lo))])
Diff(l) == Force([k \in 1..(Len(l) - 1) |-> DSub(l[k + 1], l[k])])
Ramped(l, w) == [k \in 1..(Len(l) + 2 * w) |-> IF k <= w THEN DDiv(DMul(l[1], k - 1), w) ELSE IF k > w + Len(l) THEN DDiv(DMul(l[Len(l)], 2 * w + Len(l) - k), w) ELSE l[k - w]]
(* profile of a projection: mean over the lines of the detector, within the mask *)
Profile(img, mask) == LET nv == I.vu[1]  nu == I.vu[2]
  IN [v \in 1..nv |-> LET num == DSum([u \in 1..nu |-> mask[(v - 1) * nu + u]])
                      IN DDiv(DSum([u \in 1..nu |-> DMul(img[(v - 1) * nu + u], mask[(v - 1) * nu + u])]), IF DEq(num, 0) THEN 1 ELSE num)]
Prof == Force([w \in 1..Len(I.imgs[1]) |-> LET q == Force([d \in DOMAIN I.imgs |-> Force(Profile(I.imgs[d][w], I.masks[d][w]))])
                                           IN Force([v \in 1..I.vu[1] |-> Avg([d \in DOMAIN q |-> q[d][v]])])])
PreProfiles == LET w == Len(Prof[1]) \div 2
               IN Force([k \in DOMAIN Prof |-> LET l == Scaled01(Prof[k]) IN IF I.diff THEN Force(PadSides(Diff(l), w, FALSE)) ELSE Force(Ramped(l, w))])
PreV == LET q == PreProfiles  n == Len(q)  ref == (n \div 2) + 1
            c == Force([k \in 1..n |-> CrossCorr(q[ref], q[k], <<Len(q[1])>>)])
            s == Force([k \in 1..n |-> Place(c[k], <<Len(q[1])>>, TRUE)[1]])
            f == Force([k \in 1..n |-> IF DLt(I.max[1], DAbs(s[k])) THEN 0 ELSE s[k]])
        IN [s |-> VSub(f, VConst(Avg(f), n)), gap |-> [k \in 1..n |-> DMin(Gap(c[k]), DAbs(DSub(I.max[1], DAbs(s[k]))))]]
(* horizontal shifts and center of rotation from the centers of mass, or the maxima, of the lines *)
RefPoint(l) ==
  LET x == Force([k \in DOMAIN l |-> DMax(DSub(l[k], I.bg[k]), 0)])  h == DDiv(Len(l) - 1, 2)
  IN IF I.com THEN DNeg(DDiv(DSum([k \in DOMAIN x |-> DMul(x[k], DSub(k - 1, h))]), DSum(x))) ELSE DSub(h, Top(x) - 1)
MeanLine(w) == Force([u \in 1..I.vu[2] |-> Avg([q \in 1..(Len(I.imgs) * I.vu[1]) |-> I.imgs[((q - 1) \div I.vu[1]) + 1][w][((q - 1) % I.vu[1]) * I.vu[2] + u]])])
PreU == LET lines == Force([w \in 1..Len(I.imgs[1]) |-> MeanLine(w)])
            y == Force([k \in DOMAIN lines |-> RefPoint(lines[k])])
            r == SinResidual(I.ang, y)
        IN [s |-> [k \in DOMAIN r |-> IF DLt(I.max[1], DAbs(r[k])) THEN 0 ELSE r[k]], cor |-> SinBias(I.ang, y),
            gap |-> [k \in DOMAIN r |-> DMin(DAbs(DSub(I.max[1], DAbs(r[k]))), IF I.com THEN 1 ELSE Gap(Force([q \in DOMAIN lines[k] |-> DMax(DSub(lines[k][q], I.bg[q]), 0)])))]]

-----------------------------------------------------------------------------
(* shifts that bring the volume to a place: the displacement seen by each projection, 2D: u, 3D: v and u *)
Com(x, shape) == Force([a \in DOMAIN shape |-> DDiv(DSum([i \in DOMAIN x |-> DMul(DAbs(x[i]), DSub(Coord(shape, a, i), DDiv(shape[a] - 1, 2)))]), DSum(VAbs(x)))])
Displacement == IF I.by = "xc" THEN Place(PhaseCorr(I.ref, I.vol, I.shape), I.shape, TRUE)
                ELSE VSub(IF I.by = "com" THEN Com(I.ref, I.shape) ELSE I.place, Com(I.vol, I.shape))
(* the detector axis u at each angle is (cos, +-sin, 0), v is z *)
Seen(disp) == LET n == Len(disp)  x == disp[n]  y == disp[n - 1]
              IN Force([k \in DOMAIN I.ang |-> DAdd(DMul(DCos(I.ang[k]), x), DMul(DMul(I.sg, DSin(I.ang[k])), y))])
Recentered == LET d == Displacement  nw == Len(I.ang)
              IN [u |-> VAdd(I.su, Seen(d)), v |-> IF Len(I.shape) = 3 THEN VAdd(I.sv, VConst(d[1], nw)) ELSE <<>>,
                  gap |-> <<IF I.by = "xc" THEN Gap(PhaseCorr(I.ref, I.vol, I.shape)) ELSE 1>>]
(* a volume that already is in place needs nothing *)
InPlace == (Is("center") /\ I.by = "com") => VClose(VSub(Com(I.vol, I.shape), Com(I.vol, I.shape)), VConst(0, Len(I.shape)))

-----------------------------------------------------------------------------
(* a disk about the middle pixel, averaged over the sub-pixels; its convolution with itself *)
Disk == LET nv == I.shape[1]  nu == I.shape[2]  ss == I.ss
            sub(k, c, j) == (k - c) * ss + j - (ss \div 2)
            at(v, u) == Cardinality({q \in (0..(ss - 1)) \X (0..(ss - 1)) :
                          LET a == sub(v, nv \div 2, q[1])  b == sub(u, nu \div 2, q[2]) IN DLt(DSqrt(a * a + b * b), DMul(I.radius, ss))})
        IN Force([i \in 1..(nv * nu) |-> DDiv(at((i - 1) \div nu, (i - 1) % nu), ss * ss)])
DiskConv(x) == LET nv == I.shape[1]  nu == I.shape[2]
                   pos == {k \in DOMAIN x : DLt(0, x[k])}
                   RECURSIVE acc(_, _)
                   acc(S, i) == IF S = {} THEN 0
                                ELSE LET k == CHOOSE k \in S : TRUE
                                         r == ((i - 1) \div nu) - ((k - 1) \div nu) + (nv \div 2)
                                         c == ((i - 1) % nu) - ((k - 1) % nu) + (nu \div 2)
                                     IN DAdd(IF r < 0 \/ r >= nv \/ c < 0 \/ c >= nu THEN 0 ELSE DMul(x[k], x[r * nu + c + 1]), acc(S \ {k}, i))
               IN Force([i \in DOMAIN x |-> acc(pos, i)])

-----------------------------------------------------------------------------
(* a scene of blobs [v, u, width, amplitude], turned and scaled about the middle of the image *)
TurnedBlob(b, th, sc) == <<DMul(sc, DSub(DMul(DCos(th), b[1]), DMul(DSin(th), b[2]))),
                           DMul(sc, DAdd(DMul(DSin(th), b[1]), DMul(DCos(th), b[2]))), DMul(sc, b[3]), b[4]>>
Turned(bs, th, sc) == Force([k \in DOMAIN bs |-> TurnedBlob(bs[k], th, sc)])
Degrees(th) == DDiv(DMul(th, 180), Pi)
(* turning back, and scaling back, gives the scene again; blobs keep their distances, up to the scale *)
TurnBack == Is("turn") => \A q \in DOMAIN I.turns :
  LET t == I.turns[q]  m == Turned(I.blobs, t[1], t[2])  b == Turned(m, DNeg(t[1]), DDiv(1, t[2]))
      dist(x, j, k) == DAdd(DMul(DSub(x[j][1], x[k][1]), DSub(x[j][1], x[k][1])), DMul(DSub(x[j][2], x[k][2]), DSub(x[j][2], x[k][2])))
  IN /\ \A k \in DOMAIN b : VClose(b[k], I.blobs[k])
     /\ \A k \in 2..Len(m) : DClose(dist(m, 1, k), DMul(DMul(t[2], t[2]), dist(I.blobs, 1, k)))

-----------------------------------------------------------------------------
Rows(m) == [k \in DOMAIN m |-> VOut(m[k])]
Out(r) == [s |-> Rows(r.s), gap |-> VOut(r.gap)]
Result ==
  CASE Is("xc") -> Out(XC)
    [] Is("sad") -> Out(SAD)
    [] Is("tilt") -> LET t == Tilt IN [cor |-> DOut(t.cor), tilt |-> DOut(t.tilt), gap |-> VOut(t.gap), half |-> [k \in DOMAIN I.d |-> DOut(DDiv(XC.s[k][1], 2))]]
    [] Is("turn") -> [scenes |-> [q \in DOMAIN I.turns |-> Rows(Turned(I.blobs, I.turns[q][1], I.turns[q][2]))],
                      degrees |-> [q \in DOMAIN I.turns |-> DOut(Degrees(I.turns[q][1]))]]
    [] Is("fitvu") -> LET x == XcVU IN [u |-> VOut(x.u), v |-> VOut(x.v), gap |-> VOut(x.gap)]
    [] Is("drift") -> Out(Drifts)
    [] Is("u180") -> LET h == Half180 IN [c |-> DOut(h.c), gap |-> <<DOut(h.gap)>>]
    [] Is("u360") -> LET h == Half360 IN [c |-> DOut(h.c), gap |-> <<DOut(h.gap)>>]
    [] Is("prev") -> LET p == PreV IN [s |-> VOut(p.s), gap |-> VOut(p.gap)]
    [] Is("preu") -> LET p == PreU IN [s |-> VOut(p.s), cor |-> DOut(p.cor), gap |-> VOut(p.gap)]
    [] Is("disk") -> [x |-> VOut(IF I.conv THEN DiskConv(Disk) ELSE Disk)]
    [] Is("center") -> LET r == Recentered IN [u |-> VOut(r.u), v |-> VOut(r.v), gap |-> VOut(r.gap)]
Init == iid \in 1..Len(Inst)
Spec == Init /\ [][UNCHANGED vars]_vars
EmitAll == Emit([iid |-> iid, r |-> Result])
=============================================================================
