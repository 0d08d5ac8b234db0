------------------------------- MODULE Conic --------------------------------
(* Ellipses a (x - u)^2 + b (y - v)^2 + 2 c (x - u)(y - v) = 1 through       *)
(* points <<v, u>>, and the common point of chords.                          *)
EXTENDS LinAlg
PV(p) == p[1]
PU(p) == p[2]
(* least squares of k1 u^2 + v^2 + 2 k4 u v - 2 k2 u - 2 k3 v + k5 = 0 *)
ConicCoeffs(pts) ==
  LeastSquares(Force([i \in DOMAIN pts |-> LET u == PU(pts[i])  v == PV(pts[i]) IN <<DMul(u, u), DMul(-2, u), DMul(-2, v), DMul(2, DMul(u, v)), 1>>]),
               Force([i \in DOMAIN pts |-> DNeg(DMul(PV(pts[i]), PV(pts[i])))]))
EllipseOf(k) ==
  LET den == DSub(k[1], DMul(k[4], k[4]))
      u == DDiv(DSub(k[2], DMul(k[3], k[4])), den)
      v == DDiv(DSub(DMul(k[1], k[3]), DMul(k[2], k[4])), den)
      b == DDiv(1, DSub(DAdd(DAdd(DMul(k[1], DMul(u, u)), DMul(v, v)), DMul(2, DMul(k[4], DMul(u, v)))), k[5]))
  IN Force([a |-> DMul(k[1], b), b |-> b, c |-> DMul(k[4], b), u |-> u, v |-> v])
OnEllipse(el, p) == LET x == DSub(PU(p), el.u)  y == DSub(PV(p), el.v)
                    IN DAdd(DAdd(DMul(el.a, DMul(x, x)), DMul(el.b, DMul(y, y))), DMul(2, DMul(el.c, DMul(x, y))))
HalfWidth(el) == DSqrt(DDiv(el.b, DSub(DMul(el.a, el.b), DMul(el.c, el.c))))
(* discriminant of b y^2 + 2 c x y + a x^2 - 1 = 0, and its two solutions: the larger first (b > 0) *)
Discr(el, u) == LET x == DSub(u, el.u) IN DSub(DMul(DMul(el.c, x), DMul(el.c, x)), DMul(el.b, DSub(DMul(el.a, DMul(x, x)), 1)))
AtU(el, u) == LET x == DSub(u, el.u)  s == DSqrt(DMax(Discr(el, u), 0))
              IN Force(<<DAdd(el.v, DDiv(DSub(s, DMul(el.c, x)), el.b)), DAdd(el.v, DDiv(DNeg(DAdd(s, DMul(el.c, x))), el.b))>>)
(* the point closest, in the sense of least squares, to all the chords between a point of the first and of the second half *)
ChordsMeet(pts) ==
  LET n == Len(pts) \div 2
  IN LeastSquares(Force([i \in 1..n |-> <<DSub(PU(pts[n + i]), PU(pts[i])), DSub(PV(pts[i]), PV(pts[n + i]))>>]),
                  Force([i \in 1..n |-> DSub(DMul(PV(pts[i]), PU(pts[n + i])), DMul(PU(pts[i]), PV(pts[n + i])))]))
=============================================================================
