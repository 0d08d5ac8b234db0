------------------------------ MODULE ConeBeam ------------------------------
(* Cone-beam acquisition geometries: the detector and source they describe,  *)
(* how they are recovered from the projections of two circular orbits, and   *)
(* the objects that store them.                                              *)
(* Fields (degrees and pixels): theta, phi, eta, D, R, v0, u0, nv, nu, pix.  *)
EXTENDS Conic, Emit
Inst == JsonDeserialize("instances.json")
Pi == "3.14159265358979323846264338327950288419716939937510582097494"
VARIABLES iid, heap, hist
vars == <<iid, heap, hist>>
I == Inst[iid]
Is(k) == I.kind = k
Rad(d) == DDiv(DMul(d, Pi), 180)
Deg(r) == DDiv(DMul(r, 180), Pi)
Comb(p, x, q, y) == VAdd(VScale(p, x), VScale(q, y))
Avg(s) == DDiv(DSum(s), Len(s))

-----------------------------------------------------------------------------
(* the frame of the detector before its rotation in its own plane: u, v and normal (towards the source) *)
Frame(g) == LET t == Rad(g.theta)  p == Rad(g.phi)
            IN Force([u |-> <<DNeg(DSin(p)), DNeg(DCos(p)), 0>>,
                      v |-> <<DNeg(DMul(DSin(t), DCos(p))), DMul(DSin(t), DSin(p)), DCos(t)>>,
                      n |-> <<DMul(DCos(t), DCos(p)), DNeg(DMul(DCos(t), DSin(p))), DSin(t)>>])
(* rotation of the axes by eta about the opposite of the normal; the point closest to the source is at (u0, v0) *)
GeomOf(g, center) ==
  LET f == Frame(g)  e == Rad(g.eta)
      foot == VSub(<<g.R, 0, 0>>, VScale(g.D, f.n))
      det == VSub(foot, Comb(g.u0, f.u, g.v0, f.v))
      ray == VSub(det, <<g.R, 0, 0>>)
      lift == IF center THEN DNeg(DMul(DDiv(ray[3], DAbs(ray[1])), g.R)) ELSE 0
      up(x) == VAdd(x, <<0, 0, lift>>)
  IN Force([src |-> up(<<g.R, 0, 0>>), det |-> up(det),
            u |-> Comb(DCos(e), f.u, DSin(e), f.v), v |-> Comb(DNeg(DSin(e)), f.u, DCos(e), f.v),
            ratio |-> DMul(DDiv(g.R, g.D), DAbs(f.n[1]))])
(* the projection of a point *)
Project(q, x) ==
  LET n == <<DSub(DMul(q.u[2], q.v[3]), DMul(q.u[3], q.v[2])), DSub(DMul(q.u[3], q.v[1]), DMul(q.u[1], q.v[3])), DSub(DMul(q.u[1], q.v[2]), DMul(q.u[2], q.v[1]))>>
      d == VSub(x, q.src)
      t == DDiv(DDot(VSub(q.det, q.src), n), DDot(d, n))
      p == VSub(VAdd(q.src, VScale(t, d)), q.det)
  IN Force(<<DDot(p, q.v), DDot(p, q.u)>>)
One(a) == DClose(a, 1)
Zero(a) == DClose(a, 0)
(* detector axes are orthonormal; the source is at a distance D, over (u0, v0) *)
Framed == Is("geom") => LET q == GeomOf(I.g, I.center)  f == Frame(I.g)  s == VSub(q.src, q.det) IN
  /\ One(DDot(q.u, q.u)) /\ One(DDot(q.v, q.v)) /\ Zero(DDot(q.u, q.v)) /\ Zero(DDot(q.u, f.n)) /\ Zero(DDot(q.v, f.n))
  /\ DClose(DDot(s, f.n), I.g.D) /\ DClose(DDot(s, f.u), I.g.u0) /\ DClose(DDot(s, f.v), I.g.v0)
(* centered: the axis of rotation is seen, along the ray that hits the middle of the detector, at height zero *)
Centered == (Is("geom") /\ I.center) => LET q == GeomOf(I.g, TRUE)  d == VSub(q.det, q.src) IN Zero(DAdd(q.src[3], DMul(DDiv(q.src[1], DNeg(d[1])), d[3])))

-----------------------------------------------------------------------------
(* the projections of an orbit of radius r at the height z (from the source) *)
Orbit(q, z) == Force([k \in 1..I.n |-> LET w == DAdd(I.w0, DMul(I.dir, DDiv(DMul(2 * (k - 1), Pi), I.n)))
                                       IN Project(q, <<DMul(I.r, DCos(w)), DMul(I.r, DSin(w)), DAdd(z, q.src[3])>>)])
Turned(pts, eta) == LET e == Rad(eta) IN Force([k \in DOMAIN pts |-> <<DAdd(DMul(DCos(e), pts[k][1]), DMul(DSin(e), pts[k][2])), DSub(DMul(DCos(e), pts[k][2]), DMul(DSin(e), pts[k][1]))>>])
ArcSin(x) == LET RECURSIVE newton(_, _)
                 newton(y, n) == IF n = 0 THEN y ELSE newton(DSub(y, DDiv(DSub(DSin(y), x), DCos(y))), n - 1) IN newton(x, 8)
(* geometry from the ellipses of two orbits, with the axis of rotation upright (Noo et al., 2000) *)
Noo(pts1, pts2) ==
  LET e1 == EllipseOf(ConicCoeffs(pts1))  e2 == EllipseOf(ConicCoeffs(pts2))
      ec(q) == DSqrt(DSub(q.b, DDiv(DMul(q.c, q.c), q.a)))
      m0 == DMul(DSub(e2.v, e1.v), ec(e2))  m1 == DDiv(ec(e2), ec(e1))  mm == DMul(2, DMul(m0, m1))
      n0 == DDiv(DSub(DSub(1, DMul(m0, m0)), DMul(m1, m1)), mm)
      n1 == DDiv(DSub(e2.a, DMul(e1.a, DMul(m1, m1))), mm)
      root == DSqrt(DMax(0, DSub(DAdd(DMul(e1.a, e1.a), DMul(4, DMul(n1, n1))), DMul(4, DMul(DMul(n0, n1), e1.a)))))
      d2 == DDiv(DSub(DSub(e1.a, DMul(2, DMul(n0, n1))), DMul(I.e, root)), DMul(2, DMul(n1, n1)))
      D == DSqrt(d2)
      det(q) == DSub(DMul(q.a, q.b), DMul(q.c, q.c))
      den(q) == DSqrt(DAdd(det(q), DMul(DMul(q.a, q.a), DMul(q.b, d2))))
      v0(q, s) == DSub(q.v, DMul(s, DDiv(DSqrt(DAdd(q.a, DMul(DMul(q.a, q.a), d2))), DSqrt(det(q)))))
      zeta(q, s) == DDiv(DMul(DMul(D, s), DMul(q.a, DSqrt(q.a))), den(q))
      dist(q) == DDiv(DMul(I.r, den(q)), DSqrt(det(q)))
      s2 == I.e
      v == DDiv(DAdd(v0(e1, -1), v0(e2, s2)), 2)
      tl(q) == DDiv(q.c, DMul(2, q.a))
      z1 == DMul(dist(e1), zeta(e1, -1))  z2 == DMul(dist(e2), zeta(e2, s2))
  IN Force([D |-> D, v0 |-> v, u0 |-> DAdd(DDiv(DAdd(e1.u, e2.u), 2), DAdd(DMul(tl(e1), DSub(e1.v, v)), DMul(tl(e2), DSub(e2.v, v)))),
            phi |-> Deg(ArcSin(DNeg(DAdd(DMul(tl(e1), zeta(e1, -1)), DMul(tl(e2), zeta(e2, s2)))))),
            R |-> DDiv(DSub(DMul(z1, dist(e2)), DMul(z2, dist(e1))), DSub(z1, z2)), z1 |-> z1, z2 |-> z2])
Pts1 == Orbit(GeomOf(I.g, I.center), I.z1)
Pts2 == Orbit(GeomOf(I.g, I.center), I.z2)
Axis(z) == LET q == GeomOf(I.g, I.center) IN Project(q, <<0, 0, DAdd(z, q.src[3])>>)
Near(a, b) == DLe(DAbs(DSub(a, b)), DMul("1e-20", DAdd(1, DAbs(b))))
(* the projections of two orbits determine the geometry *)
Recovered == Is("fit") => LET f == Noo(Turned(Pts1, I.g.eta), Turned(Pts2, I.g.eta)) IN
  Near(f.D, I.g.D) /\ Near(f.R, I.g.R) /\ Near(f.v0, I.g.v0) /\ Near(f.u0, I.g.u0) /\ Near(f.phi, I.g.phi) /\ Near(f.z1, I.z1) /\ Near(f.z2, I.z2)
(* the chords of opposite points meet at the projection of the center of the orbit *)
Centers == Is("fit") => LET c == ChordsMeet(Pts1)  a == Axis(I.z1) IN Near(c[1], a[1]) /\ Near(c[2], a[2])
(* the angle of the axis is the rotation of the detector *)
Upright == Is("fit") => LET a == Turned(<<Axis(I.z1)>>, I.g.eta)[1]  b == Turned(<<Axis(I.z2)>>, I.g.eta)[1] IN Near(a[2], b[2]) /\ DLt(a[1], b[1])
FitOut == LET p1 == Pts1  p2 == Pts2
              at(d) == LET f == Noo(Turned(p1, DAdd(I.g.eta, d)), Turned(p2, DAdd(I.g.eta, d))) IN VOut(<<f.D, f.R, f.v0, f.u0, f.phi>>)
          IN [p1 |-> [k \in DOMAIN p1 |-> VOut(p1[k])], p2 |-> [k \in DOMAIN p2 |-> VOut(p2[k])], axis |-> [k \in 1..3 |-> VOut(Axis(<<I.z1, 0, I.z2>>[k]))],
              plus |-> at(I.tol), minus |-> at(DNeg(I.tol))]

-----------------------------------------------------------------------------
(* geometry objects: changes give a new object, loading replaces all the fields of one *)
Rounded(x, d) == LET s == DPow(10, d)  y == DMul(x, s)  f == DFloor(y)  r == DSub(y, f)
                 IN DDiv(IF DLt(r, "0.5") \/ (DEq(r, "0.5") /\ f % 2 = 0) THEN f ELSE f + 1, s)
Changed(g, o, val) == [g EXCEPT ![o.field] = LET x == IF o.rel THEN DAdd(@, val) ELSE val IN IF o.dec < 0 THEN x ELSE Rounded(x, o.dec)]
Do(o) == /\ heap' = CASE o.op = "update" -> Append(heap, Changed(heap[o.g], o, o.val))
                      [] o.op = "tune" -> heap \o [k \in DOMAIN o.vals |-> Changed(heap[o.g], o, o.vals[k])]
                      [] o.op = "load" -> [heap EXCEPT ![o.g] = heap[o.src]]
         /\ hist' = Append(hist, o)
Can(o) == o.g <= Len(heap) /\ (o.op = "load" => o.src <= Len(heap))
(* objects that are not loaded into never change *)
Kept == [][hist'[Len(hist')].op = "load" \/ \A k \in DOMAIN heap : heap'[k] = heap[k]]_vars

-----------------------------------------------------------------------------
(* tuning: a field takes the values around its own; the one kept is at the minimum of the residuals, refined by a parabola *)
TuneOp == [field |-> I.field, rel |-> TRUE, dec |-> 3]
Candidates == [k \in DOMAIN I.vals |-> GeomOf(Changed(I.g, TuneOp, I.vals[k]), TRUE)]
Best(x, y) ==
  LET n == Len(x)
      m == CHOOSE j \in 1..n : \A l \in 1..n : DLe(y[j], y[l]) /\ (l < j => DLt(y[j], y[l]))
      s == IF m = 1 THEN 2 ELSE IF m = n THEN n - 1 ELSE m
      k == LeastSquares(Force([i \in 1..3 |-> <<1, x[s + i - 2], DMul(x[s + i - 2], x[s + i - 2])>>]), <<y[s - 1], y[s], y[s + 1]>>)
      convex == DLt(0, k[3])
      p == IF convex THEN DDiv(DNeg(k[2]), DMul(2, k[3])) ELSE x[m]
  IN IF DLe(x[1], p) /\ DLe(p, x[n]) THEN p ELSE x[m]
Tuned == Changed(I.g, TuneOp, Best(I.vals, I.y))
(* a tuned field stays in the range that was tried *)
InRange == (Is("tune") /\ I.y # <<>>) =>
  LET d == DSub(Tuned[I.field], I.g[I.field]) IN DLe(DSub(I.vals[1], "0.0005"), d) /\ DLe(d, DAdd(I.vals[Len(I.vals)], "0.0005"))

-----------------------------------------------------------------------------
GOut(q) == [src |-> VOut(q.src), det |-> VOut(q.det), u |-> VOut(q.u), v |-> VOut(q.v), ratio |-> DOut(q.ratio)]
Fields(g) == [f \in DOMAIN g |-> DOut(g[f])]
Result == CASE Is("geom") -> GOut(GeomOf(I.g, I.center))
            [] Is("fit") -> FitOut
            [] Is("tune") /\ I.y = <<>> -> [k \in DOMAIN I.vals |-> GOut(Candidates[k])]
            [] Is("tune") /\ I.y # <<>> -> Fields(Tuned)
            [] Is("objects") -> [heap |-> [k \in DOMAIN heap |-> Fields(heap[k])]]
Init == iid \in 1..Len(Inst) /\ hist = <<>> /\ heap = Inst[iid].start
Next == /\ Is("objects") /\ Len(hist) < I.depth
        /\ \E k \in DOMAIN I.menu : Can(I.menu[k]) /\ Do(I.menu[k])
        /\ UNCHANGED iid
Spec == Init /\ [][Next]_vars
EmitAll == Emit([iid |-> iid, hist |-> hist, r |-> Result])
=============================================================================
