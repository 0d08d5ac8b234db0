------------------------------ MODULE Physics ------------------------------
(* X-ray physics: units, materials, fluorescence, beams and propagation.     *)
EXTENDS Vec, FiniteSets, Emit
Inst == JsonDeserialize("instances.json")
VARIABLES iid
vars == <<iid>>
I == Inst[iid]
Is(k) == I.kind = k
Pi == "3.14159265358979323846264338327950288419716939937510582097494"
(* exact values of the constants of the SI *)
Planck == "6.62607015e-34"
Light == 299792458
Charge == "1.602176634e-19"
HcEVm == DDiv(DMul(Planck, Light), Charge)              \* wavelength in m of one eV
Metres(u) == CASE u = "km" -> 1000 [] u = "m" -> 1 [] u = "cm" -> "0.01" [] u = "mm" -> "0.001" [] u = "um" -> "1e-6" [] u = "nm" -> "1e-9" [] u = "a" -> "1e-10"
ElectronVolts(u) == CASE u = "GeV" -> "1e9" [] u = "MeV" -> "1e6" [] u = "keV" -> 1000 [] u = "eV" -> 1 [] u = "meV" -> "0.001" [] u = "ueV" -> "1e-6"
Wavelength(e, ul, ue) == DDiv(HcEVm, DMul(DMul(e, ElectronVolts(ue)), Metres(ul)))
Energy(w, ul, ue) == DDiv(HcEVm, DMul(DMul(w, Metres(ul)), ElectronVolts(ue)))
Units == [wl |-> [k \in DOMAIN I.x |-> DOut(Wavelength(I.x[k], I.ul, I.ue))], en |-> [k \in DOMAIN I.x |-> DOut(Energy(I.x[k], I.ul, I.ue))],
          len |-> DOut(DDiv(Metres(I.ul), Metres(I.ul2))), pow |-> DOut(DDiv(ElectronVolts(I.ue), ElectronVolts(I.ue2)))]
Reciprocal == Is("units") => \A k \in DOMAIN I.x : DClose(Energy(Wavelength(I.x[k], I.ul, I.ue), I.ul, I.ue), I.x[k])

-----------------------------------------------------------------------------
(* materials: a fraction per voxel; compounds: density and composition <<element, mass fraction>> *)
Weighted(c, q) == DSum([k \in DOMAIN c.parts |-> DMul(c.parts[k][2], q[k])])
Density(c) == IF c.given THEN c.density ELSE Weighted(c, c.own)
Over(g(_)) == Force([v \in DOMAIN I.f[1] |-> DSum([m \in DOMAIN I.f |-> DMul(I.f[m][v], g(m))])])
Attenuation == LET t == Force([m \in DOMAIN I.cmp |-> DMul(DMul(Density(I.cmp[m]), Weighted(I.cmp[m], I.cmp[m].total)), I.voxel)])  g(m) == t[m] IN Over(g)
(* the wave is ahead of that in vacuum: the phase decreases by the optical path in units of the wavelength *)
PhaseShift == LET t == Force([m \in DOMAIN I.cmp |-> DNeg(DMul(I.cmp[m].delta, DDiv(DMul(DMul(2, Pi), I.voxel), Wavelength(I.energy, "cm", "keV"))))])  g(m) == t[m] IN Over(g)
MassOf(c, z) == DMul(Density(c), DSum([k \in DOMAIN c.parts |-> IF c.parts[k][1] = z THEN c.parts[k][2] ELSE 0]))
ElementMass(z) == LET t == Force([m \in DOMAIN I.cmp |-> MassOf(I.cmp[m], z)])  g(m) == t[m] IN Over(g)
(* the fraction of the sphere that is seen by a detector *)
Seen(s, d) == DDiv(s, DMul(DMul(4, Pi), DMul(d, d)))
SeenBy == IF I.det = <<>> THEN 1 ELSE Seen(I.det[1], I.det[2])
Compton == LET t == Force([m \in DOMAIN I.cmp |-> DMul(DMul(DMul(Density(I.cmp[m]), Weighted(I.cmp[m], I.cmp[m].compton)), I.voxel), SeenBy)])  g(m) == t[m] IN Over(g)
Fluo == VScale(DMul(DMul(DSum(I.yield), I.voxel), SeenBy), ElementMass(I.z))
MeanLine == DDiv(DDot(I.lineE, I.rates), DSum(I.rates))
(* the solid angles of the nearest and farthest points of the sample differ *)
HalfSize == DMul(DMul(I.voxel, 10), DDiv(VMax(I.shape), 2))
Parallax == IF I.det = <<>> THEN 0 ELSE DSub(Seen(I.det[1], DSub(I.det[2], HalfSize)), Seen(I.det[1], DAdd(I.det[2], HalfSize)))
(* attenuation of one pixel (in microns) of each material, with its density or another one *)
PixelAtt == [m \in DOMAIN I.cmp |-> DMul(DMul(DMul(I.um, "1e-4"), IF I.other[m] = <<>> THEN Density(I.cmp[m]) ELSE I.other[m][1]), Weighted(I.cmp[m], I.cmp[m].total))]
Material == [lin |-> VOut(Force(PixelAtt)), att |-> VOut(Attenuation), phase |-> VOut(PhaseShift), mass |-> VOut(ElementMass(I.z)), compton |-> VOut(Compton), fluo |-> VOut(Fluo),
             line |-> DOut(MeanLine), parallax |-> DOut(Parallax), seen |-> DOut(SeenBy), dens |-> [m \in DOMAIN I.cmp |-> DOut(Density(I.cmp[m]))]]
(* the masses of all the elements make the density (the mass fractions sum to one, up to their rounding) *)
Elements == UNION {{I.cmp[m].parts[k][1] : k \in DOMAIN I.cmp[m].parts} : m \in DOMAIN I.cmp}
RECURSIVE SumMass(_)
SumMass(S) == IF S = {} THEN VConst(0, Len(I.f[1])) ELSE LET z == CHOOSE z \in S : TRUE IN VAdd(ElementMass(z), SumMass(S \ {z}))
MassTotal == Is("mat") => LET g(m) == Density(I.cmp[m])  t == SumMass(Elements)  u == Over(g) IN \A v \in DOMAIN t : DLe(DAbs(DSub(t[v], u[v])), DMul("1e-3", DAdd(1, u[v])))
(* the mean line is between the smallest and the largest of those emitted *)
MeanInside == Is("mat") => DLe(MeanLine, DMul(VMax(I.lineE), "1.000000001"))

(* lines by the beginning of their name *)
Starts(s, p) == Len(p) <= Len(s) /\ \A k \in DOMAIN p : s[k] = p[k]
Lines == SelectSeq([k \in DOMAIN I.names |-> k], LAMBDA k : Starts(I.names[k], I.prefix))

-----------------------------------------------------------------------------
(* a beam seen by pixels: its profile averaged over the pixel that it crosses and the pixel that sees it, inside the window *)
Shape(x) ==
  CASE I.shape = "gaussian" -> DExp(DDiv(DMul(DMul(-4, DLn(2)), DMul(x, x)), DMul(I.fwhm, I.fwhm)))
    [] I.shape = "lorentzian" -> DDiv(DMul(I.fwhm, I.fwhm), DAdd(DMul(I.fwhm, I.fwhm), DMul(4, DMul(x, x))))
    [] I.shape = "sech**2" -> LET e == DExp(DDiv(DMul(DMul(2, DLn(DAdd(1, DSqrt(2)))), x), I.fwhm)) IN DDiv(4, DMul(DAdd(e, DDiv(1, e)), DAdd(e, DDiv(1, e))))
Quad == 32      \* intervals per half pixel
(* weight at j / Quad half pixels from the centre of a pixel: overlap of two pixels *)
BeamTab == Force([j \in 1..((2 * I.size + 1) * Quad + 1) |-> Shape(DDiv(DMul(I.voxel, j - 1), 2 * Quad))])
Beam == LET P == I.size  top == (2 * P + 1) * Quad  tab == BeamTab
            at(j) == tab[(IF j < 0 THEN -j ELSE j) + 1]
            \* Simpson's rule over [i - 1, i + 1] pixels, cut to the window
            one(i) == LET lo == IF 2 * Quad * (i - 1) < -top THEN -top ELSE 2 * Quad * (i - 1)
                          hi == IF 2 * Quad * (i + 1) > top THEN top ELSE 2 * Quad * (i + 1)
                      IN DSum([q \in 1..(hi - lo + 1) |->
                           LET j == lo + q - 1  d == j - 2 * Quad * i  a == IF d < 0 THEN -d ELSE d
                               s == IF j = lo \/ j = hi \/ (j = 2 * Quad * i) THEN (IF j = 2 * Quad * i THEN 2 ELSE 1) ELSE IF (j - lo) % 2 = 1 THEN 4 ELSE 2
                           IN DMul(DMul(s, 2 * Quad - a), at(j))])
            y == Force([k \in 1..(2 * P + 1) |-> one(k - 1 - P)])
        IN VScale(DDiv(1, DSum(y)), y)
BeamOk == Is("beam") => LET y == Beam  n == Len(y) IN
   /\ \A k \in 1..n : DClose(y[k], y[n + 1 - k]) /\ DLt(0, y[k])
   /\ \A k \in 1..I.size : DLe(y[k], y[k + 1])
   /\ DClose(DSum(y), 1)

-----------------------------------------------------------------------------
(* free-space propagation: response at the frequency of each index of the (row-major) grid *)
RECURSIVE StrideOf(_, _)
StrideOf(shape, a) == IF a = Len(shape) THEN 1 ELSE shape[a + 1] * StrideOf(shape, a + 1)
CoordOf(shape, a, q) == ((q - 1) \div StrideOf(shape, a)) % shape[a]
Signed(k, n) == IF 2 * k < n THEN k ELSE k - n
Size(shape) == shape[1] * StrideOf(shape, 1)
K2(shape, q) == DSum([a \in DOMAIN shape |-> LET k == DDiv(Signed(CoordOf(shape, a, q), shape[a]), DMul(shape[a], I.pix)) IN DMul(k, k)])
Response(k2) == LET t == DMul(DMul(DMul(I.dist, I.wave), Pi), k2)
                IN IF I.filter = "tie" THEN DAdd(1, DMul(I.db, t)) ELSE DAdd(DCos(t), DMul(I.db, DSin(t)))
ResponseOn(shape) == Force([q \in 1..Size(shape) |-> Response(K2(shape, q))])
(* real-space kernel of a symmetric response: at the index q, the displacement *)
RECURSIVE Turn(_, _, _, _)
Turn(shape, p, q, a) == IF a = 0 THEN 0 ELSE DAdd(DDiv(CoordOf(shape, a, p) * CoordOf(shape, a, q), shape[a]), Turn(shape, p, q, a - 1))
Kernel(shape, H) == Force([q \in 1..Size(shape) |-> DDiv(DSum([p \in 1..Size(shape) |-> DMul(H[p], DCos(DMul(DMul(2, Pi), Turn(shape, p, q, Len(shape)))))]), Size(shape))])
RECURSIVE Index(_, _, _)
Index(shape, c, a) == IF a = 0 THEN 0 ELSE Index(shape, c, a - 1) * shape[a] + c[a]
Shifted(shape, v) == Force([q \in 1..Size(shape) |-> v[Index(shape, [a \in DOMAIN shape |-> (CoordOf(shape, a, q) + shape[a] - shape[a] \div 2) % shape[a]], Len(shape)) + 1]])
Prop == LET H == ResponseOn(I.shape) IN [f |-> VOut(H), d |-> VOut(Shifted(I.shape, Kernel(I.shape, H)))]
(* retrieval: the images, continued by their edge to twice the size, divided by the response *)
Clamp(k, n) == IF k < 0 THEN 0 ELSE IF k >= n THEN n - 1 ELSE k
Retrieve ==
  LET s == I.shape  big == <<2 * s[1], 2 * s[2]>>
      G == Kernel(big, Force(LET H == ResponseOn(big) IN [q \in DOMAIN H |-> DDiv(1, H[q])]))
      \* index of the padded grid (period 2 s), from the first pixel
      src(k, n) == Clamp(IF k < n + n \div 2 THEN k ELSE k - 2 * n, n)
      one(x) == Force([o \in 1..Size(s) |->
                  DSum([q \in 1..Size(big) |->
                    LET y == src((CoordOf(s, 1, o) - CoordOf(big, 1, q)) % big[1], s[1])
                        z == src((CoordOf(s, 2, o) - CoordOf(big, 2, q)) % big[2], s[2])
                    IN DMul(G[q], x[y * s[2] + z + 1])])])
  IN Force([k \in DOMAIN I.imgs |-> one(I.imgs[k])])
(* no contrast, no change; both responses agree at small distances *)
Uniform == (Is("retrieve") /\ I.flat) => LET r == Retrieve IN \A k \in DOMAIN r : VClose(r[k], I.imgs[k])
SmallStep == (Is("prop") /\ I.filter = "tie") => LET s == I.shape IN \A q \in 1..Size(s) :
   LET t == DMul(DMul(DMul(DMul(I.dist, "1e-6"), I.wave), Pi), K2(s, q))
   IN DLe(DAbs(DSub(DAdd(DCos(t), DMul(I.db, DSin(t))), DAdd(1, DMul(I.db, t)))), DMul(DAdd(1, DMul(I.db, t)), DMul(t, t)))

-----------------------------------------------------------------------------
Result ==
  CASE Is("units") -> Units
    [] Is("mat") -> Material
    [] Is("lines") -> [l |-> Lines]
    [] Is("beam") -> [y |-> VOut(Beam)]
    [] Is("prop") -> Prop
    [] Is("retrieve") -> [y |-> LET r == Retrieve IN [k \in DOMAIN r |-> VOut(r[k])]]
Init == iid \in 1..Len(Inst)
Spec == Init /\ [][UNCHANGED vars]_vars
EmitAll == Emit([iid |-> iid, r |-> Result])
=============================================================================
