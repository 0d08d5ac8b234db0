-------------------------------- MODULE Fit ---------------------------------
(* Fits of local extrema, sinusoids and ellipses.                            *)
EXTENDS Conic, FiniteSets, Emit
Inst == JsonDeserialize("instances.json")
VARIABLES iid
vars == <<iid>>
I == Inst[iid]
Is(k) == I.kind = k
VMin(v) == DNeg(VMax(VNeg(v)))
ClampI(a, lo, hi) == IF a < lo THEN lo ELSE IF a > hi THEN hi ELSE a
ArgMin(v) == CHOOSE i \in DOMAIN v : (\A j \in DOMAIN v : DLe(v[i], v[j])) /\ (\A j \in 1..(i - 1) : DLt(v[i], v[j]))
ArgMax(v) == ArgMin(VNeg(v))
Log10(x) == DDiv(DLn(x), DLn(10))

(* coefficients of the parabola of least squares, its stationary point and its value there *)
Parabola(x, y) == LeastSquares(Force([i \in DOMAIN x |-> <<1, x[i], DMul(x[i], x[i])>>]), y)
VertexOf(k) == DDiv(DNeg(k[2]), DMul(2, k[3]))
ValueOf(k) == DAdd(k[1], DDiv(DMul(VertexOf(k), k[2]), 2))
Spread(v) == DSub(VMax(v), VMin(v))

-----------------------------------------------------------------------------
(* the minimum of a function known at some points: the parabola through the smallest value and its neighbours *)
FitX == IF I.log THEN Force([i \in DOMAIN I.x |-> Log10(I.x[i])]) ELSE I.x
(* losses of cross-validation: the average over the rounds of what is left, relative to the beginning *)
Average(rounds) == DDiv(DSum([r \in DOMAIN rounds |-> DDiv(rounds[r][2], rounds[r][1])]), Len(rounds))
FitY == IF Is("cv") THEN Force([h \in DOMAIN I.left |-> Average(I.left[h])]) ELSE I.y
ParabMin ==
  LET x == FitX  Y == FitY  n == Len(x)  m == ArgMin(Y)  s == ClampI(m, 2, n - 1)
      k == Parabola(<<x[s - 1], x[s], x[s + 1]>>, <<Y[s - 1], Y[s], Y[s + 1]>>)
      flat == DLe(DMul(DAbs(k[3]), DMul(Spread(x), Spread(x))), "1e-30")
      convex == ~flat /\ DLt(0, k[3])
      p == IF convex THEN VertexOf(k) ELSE x[m]
      inside == DLe(x[1], p) /\ DLe(p, x[n])
  IN Force([fitted |-> convex /\ inside, x |-> IF convex /\ inside THEN p ELSE I.x[m], y |-> IF convex /\ inside THEN ValueOf(k) ELSE Y[m],
            k |-> k, at |-> <<x[s - 1], x[s], x[s + 1]>>, curv |-> DMul(k[3], DMul(Spread(x), Spread(x))),
            gap |-> IF convex THEN DMin(DAbs(DSub(p, x[1])), DAbs(DSub(p, x[n]))) ELSE 1])
(* a strict minimum inside the range is refined, between its neighbours, to a value that is not larger *)
Refined == I.kind \in {"parab", "func", "cv"} =>
  LET Y == FitY  m == ArgMin(Y) IN
  (m > 1 /\ m < Len(Y) /\ DLt(Y[m], Y[m - 1]) /\ DLt(Y[m], Y[m + 1])) =>
    LET r == ParabMin  x == FitX IN r.fitted /\ DLt(x[m - 1], r.x) /\ DLt(r.x, x[m + 1]) /\ DLe(r.y, Y[m])
(* never above the smallest measured value *)
NotAbove == I.kind \in {"parab", "func", "cv"} => LET Y == FitY IN DLeq(ParabMin.y, Y[ArgMin(Y)])

(* values of a hyper-parameter: n per order of magnitude, on the grid of the powers of ten or from the first value *)
Pow10(k) == DExp(DMul(DLn(10), DDiv(k, I.num)))
Steps(x) == DMul(I.num, Log10(x))
HpRange ==
  IF I.aligned
  THEN LET lo == DFloor(Steps(I.start)) - 1  hi == DFloor(Steps(I.end)) + 2
           ks == SelectSeq([j \in 1..(hi - lo + 1) |-> lo + j - 1], LAMBDA k : DLe(DMul(I.start, "0.999999999999"), Pow10(k)) /\ DLe(DMul(Pow10(k), "0.999"), I.end))
       IN Force([v |-> [j \in DOMAIN ks |-> Pow10(ks[j])], gap |-> VMin([j \in 1..(hi - lo + 1) |-> DAbs(DSub(DDiv(DMul(Pow10(lo + j - 1), "0.999"), I.end), 1))])])
  ELSE LET d == DSub(DSub(Steps(I.end), Steps(I.start)), "1e-3")
           n == DFloor(d) + 1
       IN Force([v |-> [j \in 1..(n + 1) |-> DMul(I.start, Pow10(j - 1))], gap |-> DMin(DSub(d, DFloor(d)), DSub(DFloor(d) + 1, d))])
(* within a step, the range covers the interval, and neighbours have the same ratio *)
Covered == Is("range") => LET v == HpRange.v  n == Len(v)  step == Pow10(1) IN
  /\ n > 0 => DLe(v[1], DMul(I.start, step)) /\ DLt(I.end, DMul(v[n], DMul(step, "1.002"))) /\ DLe(DMul(I.start, "0.99999999"), v[1])
  /\ \A k \in 1..(n - 1) : DLe(DAbs(DSub(DDiv(v[k + 1], v[k]), step)), "1e-30")

(* stationary points of sampled functions: a function per column *)
Max1 == LET k == Force([c \in DOMAIN I.y |-> Parabola(I.x, I.y[c])])
            p == Force([c \in DOMAIN k |-> VertexOf(k[c])])
        IN [p |-> p, val |-> [c \in DOMAIN k |-> ValueOf(k[c])], slope |-> [c \in DOMAIN k |-> k[c][2]],
            ok |-> \A c \in DOMAIN p : DLt(VMin(I.x), p[c]) /\ DLt(p[c], VMax(I.x)),
            gap |-> VMin([c \in DOMAIN p |-> DMin(DAbs(DSub(VMin(I.x), p[c])), DAbs(DSub(p[c], VMax(I.x))))])]
Max2 == LET n == Len(I.fx)
            row(i) == LET y == I.fy[((i - 1) \div n) + 1]  x == I.fx[((i - 1) % n) + 1] IN <<1, y, x, DMul(y, x), DMul(y, y), DMul(x, x)>>
            k == LeastSquares(Force([i \in DOMAIN I.y |-> row(i)]), I.y)
            det == DSub(DMul(DMul(4, k[5]), k[6]), DMul(k[4], k[4]))
            y == DDiv(DSub(DMul(k[4], k[3]), DMul(2, DMul(k[6], k[2]))), det)
            x == DDiv(DSub(DMul(k[4], k[2]), DMul(2, DMul(k[5], k[3]))), det)
            in(v, s) == DLe(VMin(s), v) /\ DLe(v, VMax(s))
            far(v, s) == DMin(DAbs(DSub(v, VMin(s))), DAbs(DSub(v, VMax(s))))
        IN [p |-> <<y, x>>, ok |-> in(y, I.fy) /\ in(x, I.fx), gap |-> DMin(DMin(far(y, I.fy), far(x, I.fx)), DAbs(det))]
(* quadratic functions have their stationary point found *)
Truth == (Is("max1") /\ I.truth # <<>>) => \A c \in DOMAIN I.truth : DClose(Max1.p[c], I.truth[c])
Truth2 == (Is("max2") /\ I.truth # <<>>) => VClose(Max2.p, I.truth)

(* values around the (first) maximum of every line, or of the whole image, continued on the other side *)
Window(n, m, r) == [o \in 1..(2 * r + 1) |-> ((m - 1 + o - 1 - r) % n) + 1]
PeakLine(v) == LET w == Window(Len(v), ArgMax(v), I.r) IN [f |-> [o \in DOMAIN w |-> v[w[o]]], w |-> w]
PeakN == LET m == ArgMax(I.y) - 1
             RECURSIVE str(_)
             str(a) == IF a = Len(I.shape) THEN 1 ELSE I.shape[a + 1] * str(a + 1)
             c == [a \in DOMAIN I.shape |-> ((m \div str(a)) % I.shape[a]) + 1]
             w == [a \in DOMAIN I.shape |-> Window(I.shape[a], c[a], I.r)]
             d == 2 * I.r + 1
             RECURSIVE idx(_, _)
             idx(q, a) == IF a = 0 THEN 0 ELSE idx(q \div d, a - 1) + (w[a][(q % d) + 1] - 1) * str(a)
             nd == Len(I.shape)
         IN [f |-> [q \in 1..(d ^ nd) |-> I.y[idx(q - 1, nd) + 1]], w |-> w]

-----------------------------------------------------------------------------
(* sinusoids of least squares *)
SinFit == LET X == Force([k \in DOMAIN I.x |-> <<DSin(I.x[k]), DCos(I.x[k]), 1>>])  k == LeastSquares(X, I.y)
          IN Force([y |-> MatVec(X, k), amp |-> DSqrt(DAdd(DMul(k[1], k[1]), DMul(k[2], k[2]))), bias |-> k[3]])
SinTruth == (Is("sin") /\ I.exact) => VClose(SinFit.y, I.y)

(* ellipses and chords *)
Pts == Force([i \in DOMAIN I.pv |-> <<I.pv[i], I.pu[i]>>])
El == EllipseOf(ConicCoeffs(Pts))
Ellipse ==
  LET e == El  w == HalfWidth(e)  at == Force([k \in DOMAIN I.at |-> DAdd(e.u, DMul(I.at[k], w))])
  IN Force([el |-> <<e.a, e.b, e.c, e.u, e.v>>, ext |-> <<DSub(e.u, w), DAdd(e.u, w)>>, at |-> at, v |-> [k \in DOMAIN at |-> AtU(e, at[k])],
            center |-> ChordsMeet(Pts)])
SmallE == "1e-8"
Near(a, b) == DLe(DAbs(DSub(a, b)), DMul(SmallE, DAdd(1, DAbs(a))))
(* points of an ellipse give it back; the curve passes through them; it has a vertical tangent at its ends *)
Exact == (Is("ell") /\ I.truth # <<>>) =>
           LET e == El  t == I.truth IN
           /\ Near(e.a, t[1]) /\ Near(e.b, t[2]) /\ Near(e.c, t[3]) /\ Near(e.u, t[4]) /\ Near(e.v, t[5])
           /\ \A i \in DOMAIN I.pv : LET q == AtU(e, I.pu[i]) IN Near(OnEllipse(e, Pts[i]), 1) /\ (DLe(DAbs(DSub(q[1], I.pv[i])), "1e-4") \/ DLe(DAbs(DSub(q[2], I.pv[i])), "1e-4"))
Ends == Is("ell") => LET e == El IN Near(DMul(e.b, Discr(e, DAdd(e.u, HalfWidth(e)))), 0)
(* chords through a point meet there *)
Meet == (Is("ell") /\ I.meet # <<>>) => LET c == ChordsMeet(Pts) IN Near(c[1], I.meet[1]) /\ Near(c[2], I.meet[2])
(* recorded fits of least absolute distance are not worse than those of least squares *)
L1 == [l1 |-> VNorm1(VSub(I.y, I.l1)), l2 |-> VNorm1(VSub(I.y, I.l2))]

-----------------------------------------------------------------------------
Result ==
  CASE I.kind \in {"parab", "func", "cv"} -> LET r == ParabMin IN [fitted |-> r.fitted, x |-> DOut(r.x), y |-> DOut(r.y), k |-> VOut(r.k), at |-> VOut(r.at), curv |-> DOut(r.curv), gap |-> DOut(r.gap)]
    [] Is("range") -> LET r == HpRange IN [v |-> VOut(r.v), gap |-> DOut(r.gap)]
    [] Is("max1") -> LET r == Max1 IN [p |-> VOut(r.p), val |-> VOut(r.val), slope |-> VOut(r.slope), ok |-> r.ok, gap |-> DOut(r.gap)]
    [] Is("max2") -> LET r == Max2 IN [p |-> VOut(r.p), ok |-> r.ok, gap |-> DOut(r.gap)]
    [] Is("peak1") -> [l |-> [k \in DOMAIN I.y |-> PeakLine(I.y[k])]]
    [] Is("peakn") -> PeakN
    [] Is("sin") -> LET r == SinFit IN [y |-> VOut(r.y), amp |-> DOut(r.amp), bias |-> DOut(r.bias)]
    [] Is("ell") -> LET r == Ellipse IN [el |-> VOut(r.el), ext |-> VOut(r.ext), at |-> VOut(r.at), v |-> [k \in DOMAIN r.v |-> VOut(r.v[k])], center |-> VOut(r.center)]
    [] Is("l1") -> LET r == L1 IN [l1 |-> DOut(r.l1), l2 |-> DOut(r.l2)]
Init == iid \in 1..Len(Inst)
Spec == Init /\ [][UNCHANGED vars]_vars
EmitAll == Emit([iid |-> iid, r |-> Result])
=============================================================================
