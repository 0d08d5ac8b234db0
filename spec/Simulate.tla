------------------------------ MODULE Simulate ------------------------------
(* Simulated data: phantoms of materials, noise-free and noisy readings.     *)
EXTENDS Image, FiniteSets, Emit
Inst == JsonDeserialize("instances.json")
VARIABLES iid
vars == <<iid>>
I == Inst[iid]
Is(k) == I.kind = k

-----------------------------------------------------------------------------
(* fluorescence and transmission sinograms of a square phantom *)
Angle(k) == DDiv(DMul(Pi, DAdd(I.start, DDiv(DMul(k - 1, DSub(I.end, I.start)), I.num))), 180)
Angles == Force([k \in 1..I.num |-> Angle(k)])
(* a detector of 2.4 cm seen from 16 cm: the part of the photons that it gets *)
Efficiency == LET h == DDiv(DDiv("2.4", 2), DMul(16, 2)) IN DMul(h, h)
Photons == DMul(I.flux, I.dwell)
Survive(a, d) == LET one == VConst(1, I.n * I.n)
                 IN VMul(IF I.vin = <<>> THEN one ELSE Transmission(I.vin, I.n, I.n, a),
                         IF I.vout = <<>> THEN one ELSE Transmission(I.vout, I.n, I.n, DAdd(DAdd(a, d), Pi)))
Blur(p) == IF I.psf = <<>> THEN p ELSE Force(Conv(p, <<I.n>>, I.psf, <<Len(I.psf)>>, "edge"))
Line(a, d) == Blur(Radon(IF I.vin = <<>> /\ I.vout = <<>> THEN I.ph ELSE VMul(I.ph, Survive(a, d)), I.n, a))
Gain == DMul(Photons, Efficiency)
Sino == Force([d \in DOMAIN I.det |-> [k \in 1..I.num |-> VScale(Gain, Line(Angle(k), I.det[d]))]])
Trans == Force([k \in 1..I.num |-> LET l == Line(Angle(k), 0) IN [u \in DOMAIN l |-> DMul(Photons, DExp(DNeg(l[u])))]])
(* attenuation only takes photons away; twice the time, twice the photons; nobody absorbs: all photons are transmitted *)
NonNeg(v) == \A k \in DOMAIN v : DLe(0, v[k])
Dimmer == Is("sino") => \A d \in DOMAIN I.det : \A k \in 1..I.num : I.psf = <<>> =>
            LET l == Line(Angle(k), I.det[d])  f == Radon(I.ph, I.n, Angle(k)) IN \A u \in DOMAIN l : DLeq(l[u], f[u])
Beer == Is("trans") => \A k \in 1..I.num : \A u \in 1..I.n : DLeq(Trans[k][u], Photons) /\ DLt(0, Trans[k][u])

-----------------------------------------------------------------------------
(* phases of a phantom, by its grey levels: 1 air, 2 iron oxide, 3 calcium oxide, 4 calcium carbonate *)
Between(x, a, b) == DLt(a, x) /\ DLt(x, b)
Phase(x) == IF DLt(x, "0.1") THEN 1 ELSE IF DLt("0.5", x) THEN 2 ELSE IF Between(x, "0.25", "0.5") THEN 3 ELSE IF Between(x, "0.1", "0.25") THEN 4 ELSE 0
VoxelCm == DMul(I.voxel, "1e-4")
Cmp == [p \in 1..4 |-> I.cmp[p]]
LinAtt(c, q) == DMul(DMul(c.density, DSum([k \in DOMAIN c.parts |-> DMul(c.parts[k][2], q[k])])), VoxelCm)
Mass(c, z) == DMul(c.density, DSum([k \in DOMAIN c.parts |-> IF c.parts[k][1] = z THEN c.parts[k][2] ELSE 0]))
Assign(g(_)) == LET t == Force([p \in 1..4 |-> g(p)]) IN Force([v \in DOMAIN I.x |-> IF Phase(I.x[v]) = 0 THEN 0 ELSE t[Phase(I.x[v])]])
AttIn == LET g(p) == LinAtt(Cmp[p], Cmp[p].total) IN Assign(g)
AttOut(k) == LET g(p) == LinAtt(Cmp[p], Cmp[p].out[k]) IN Assign(g)
Fluo(k) == LET g(p) == DMul(DMul(Mass(Cmp[p], I.z[k]), I.yield[k]), VoxelCm) IN Assign(g)
Compton == LET g(p) == LinAtt(Cmp[p], Cmp[p].compton) IN Assign(g)
Phases == [att |-> VOut(AttIn), out |-> [k \in DOMAIN I.cmp[1].out |-> VOut(AttOut(k))], fluo |-> [k \in DOMAIN I.z |-> VOut(Fluo(k))],
           compton |-> IF I.cmp[1].compton = <<>> THEN <<>> ELSE VOut(Compton), ph |-> [v \in DOMAIN I.x |-> Phase(I.x[v])]]
(* elements that no phase has are not emitted, and those of a single phase are emitted there only *)
Absent == Is("phases") => \A k \in DOMAIN I.z :
            LET has == {p \in 1..4 : \E q \in DOMAIN Cmp[p].parts : Cmp[p].parts[q][1] = I.z[k]}  f == Fluo(k)
            IN \A v \in DOMAIN I.x : Phase(I.x[v]) \notin has => DEq(f[v], 0)

-----------------------------------------------------------------------------
(* readings recorded from the implementation: what was clean, the background and what was read *)
Clean == VScale(DMul(I.photons, I.eff), I.img)
Mean(v) == DDiv(DSum(v), Len(v))
Margin == 8       \* standard deviations
Off(x, y, s) == DLe(DAbs(DSub(x, y)), DAdd(DMul(Margin, s), DMul("1e-5", DAdd(1, DAdd(DAbs(x), DAdd(DAbs(y), VMax(VAbs(I.noisy))))))))
Expected == IF I.bg THEN VAdd(Clean, VConst(DMul(DMul(I.photons, I.eff), I.bgavg), Len(I.img))) ELSE Clean
Var == DAdd(IF I.poisson THEN Mean(Expected) ELSE 0, DMul(I.readout, I.readout))
BgDev == IF I.bg THEN DMul(DMul(I.photons, I.eff), I.bgstd) ELSE 0
Noise ==
  LET n == Len(I.img)  c == Clean  e == Expected
      d == VSub(I.noisy, e)
      sd == DSqrt(DDiv(DAdd(Var, DMul(BgDev, BgDev)), n))
      v == Mean(VMul(d, d))  w == DAdd(Var, DMul(BgDev, BgDev))
  IN [clean |-> VOut(c),
      background |-> Off(I.background, DSub(Mean(e), Mean(c)), DSqrt(DDiv(DMul(BgDev, BgDev), n))),
      mean |-> Off(Mean(d), 0, sd),
      variance |-> DLe(DMul(w, "0.4"), DAdd(v, "1e-6")) /\ DLe(v, DAdd(DMul(w, "2.2"), "1e-6")),
      \* counts are whole numbers, none where none is expected
      counts |-> (I.poisson /\ DEq(I.readout, 0)) =>
                   \A k \in 1..n : DEq(I.noisy[k], DFloor(I.noisy[k])) /\ DLe(0, I.noisy[k]) /\ (DEq(e[k], 0) => DEq(I.noisy[k], 0)),
      \* the background does not take photons away
      added |-> (~I.poisson /\ DEq(I.readout, 0)) => \A k \in 1..n : DLe(c[k], DAdd(I.noisy[k], DMul("1e-5", DAdd(1, DAbs(c[k])))))]

-----------------------------------------------------------------------------
Power == LET n == Len(I.x)  rms(v) == DSqrt(DDiv(DDot(v, v), n)) IN [v |-> DOut(rms(I.x)), e |-> DOut(rms(VSub(I.x, I.y)))]
(* distances: the error is zero only for the same volume, and no larger than the sum of the powers *)
Triangle == Is("power") => LET n == Len(I.x)  rms(v) == DSqrt(DDiv(DDot(v, v), n)) IN DLeq(rms(VSub(I.x, I.y)), DAdd(rms(I.x), rms(I.y)))
Ceil(x) == -DFloor(DNeg(x))
Round == Force([k \in DOMAIN I.x |-> Ceil(DDiv(I.x[k], 2 ^ I.p)) * (2 ^ I.p)])
Rounded == Is("pow2") => \A k \in DOMAIN I.x : DLe(I.x[k], Round[k]) /\ DLt(Round[k], DAdd(I.x[k], 2 ^ I.p)) /\ Round[k] % (2 ^ I.p) = 0

-----------------------------------------------------------------------------
Result ==
  CASE Is("sino") -> LET s == Sino IN [s |-> [d \in DOMAIN s |-> [k \in DOMAIN s[d] |-> VOut(s[d][k])]], a |-> VOut(Angles), ph |-> VOut(VScale(Gain, I.ph)), bg |-> DOut(DMul(Gain, I.bgavg))]
    [] Is("trans") -> LET s == Trans IN [s |-> [k \in DOMAIN s |-> VOut(s[k])], a |-> VOut(Angles), flat |-> DOut(Photons)]
    [] Is("phases") -> Phases
    [] Is("noise") -> Noise
    [] Is("power") -> Power
    [] Is("pow2") -> [r |-> Round]
Init == iid \in 1..Len(Inst)
Spec == Init /\ [][UNCHANGED vars]_vars
EmitAll == Emit([iid |-> iid, r |-> Result])
=============================================================================
