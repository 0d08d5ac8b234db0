------------------------------ MODULE Backend -------------------------------
(* A projector backend on top of a device, as an object with a life: its     *)
(* geometry is set, it allocates projectors on the device, projects, and     *)
(* releases what it holds - also when the device fails.                      *)
(* instances.json:                                                           *)
(*   geoms : the geometries it is set to.  nd, n, nz, vox : volume, ang,     *)
(*     gt : "parallel" or "cone", rot, and rows src, det, u, v;  nv, nu :    *)
(*     detector;  single : whether single angles may be projected            *)
(*     x : volume; y[a] : data (nv x nu, flattened)                          *)
(*   menu : operations; depth                                                *)
(* Operations: <<"set", g>>, <<"ready">>, <<"close">>, <<"fp">>, <<"bp">>,   *)
(*   <<"fpa", a>>, <<"bpa", a>>, <<"wrong">> : data of another shape,        *)
(*   <<"fail-make">>, <<"fail-run">> : the device fails, <<"free">>          *)
EXTENDS Motion, FiniteSets, Emit

Inst == JsonDeserialize("instances.json")
VARIABLES iid, cur, alive, hist, outcome
vars == <<iid, cur, alive, hist, outcome>>
I == Inst[iid]
Geo == I.geoms[cur]

Na(G) == Len(G.ang)
(* projectors that are on the device, when the backend is ready *)
Full(G) == IF G.single THEN Na(G) + 1 ELSE 1

-----------------------------------------------------------------------------
(* where the voxels fall *)
Mid(n) == DDiv(n + 1, 2)
NVox(G) == G.nz * G.n * G.n
Pos(G, k) == LET z == ((k - 1) \div (G.n * G.n)) + 1
                 r == (((k - 1) \div G.n) % G.n) + 1
                 c == ((k - 1) % G.n) + 1
             IN VScale(G.vox, <<DSub(c, Mid(G.n)), DSub(r, Mid(G.n)), DSub(z, Mid(G.nz))>>)
Moved(G) == Force(<<RotRows(G.ang, G.rot, G.src), RotRows(G.ang, G.rot, G.det), RotRows(G.ang, G.rot, G.u), RotRows(G.ang, G.rot, G.v)>>)
(* the ray through x meets the detector *)
Hit(G, M, a, x) ==
  LET s == Row(M[1], a)  d == Row(M[2], a)  u == Row(M[3], a)  v == Row(M[4], a)
      n == Cross(u, v)
      ray == IF G.gt = "cone" THEN VSub(x, s) ELSE s
      t == DDiv(DDot(VSub(d, x), n), DDot(ray, n))
      p == VSub(VAdd(x, VScale(t, ray)), d)
  IN <<DAdd(DDiv(DDot(p, u), VNorm2Sq(u)), Mid(G.nu)),
       DAdd(DDiv(DDot(p, v), VNorm2Sq(v)), Mid(G.nv))>>
Hits(G) == LET M == Moved(G) IN Force([a \in 1..Na(G) |-> [k \in 1..NVox(G) |-> Hit(G, M, a, Pos(G, k))]])
Hat(d) == DMax(0, DSub(1, DAbs(d)))
Weight(G, h, pv, pu) == IF G.nd = 2 THEN Hat(DSub(h[1], pu)) ELSE DMul(Hat(DSub(h[1], pu)), Hat(DSub(h[2], pv)))
Mat(G, H, a) == Force([p \in 1..(G.nv * G.nu) |-> [k \in 1..NVox(G) |->
                  Weight(G, H[a][k], ((p - 1) \div G.nu) + 1, ((p - 1) % G.nu) + 1)]])
Mats(G) == LET H == Hits(G) IN Force([a \in 1..Na(G) |-> Mat(G, H, a)])
Fp(G, W) == Force([a \in 1..Na(G) |-> MatVec(W[a], G.x)])
BpA(G, W) == Force([a \in 1..Na(G) |-> MatVec(Transp(W[a]), G.y[a])])
RECURSIVE VSumUp(_, _)
VSumUp(ss, k) == IF k = 1 THEN ss[1] ELSE VAdd(VSumUp(ss, k - 1), ss[k])

-----------------------------------------------------------------------------
(* alive: the numbers of projectors that may be on the device (a refused     *)
(* call may, or may not, have made the backend ready before)                 *)
Init == iid \in 1..Len(Inst) /\ cur = 1 /\ alive = {0} /\ hist = <<>> /\ outcome = "ok"
Freed == hist # <<>> /\ I.menu[hist[Len(hist)]][1] = "free"
Do(m) ==
  LET o == I.menu[m]
      single == o[1] \in {"fpa", "bpa"}
  IN /\ ~Freed
     /\ (o[1] = "fail-make") => (alive = {0})
     /\ single => o[2] <= Na(Geo)
     /\ hist' = Append(hist, m)
     /\ cur' = IF o[1] = "set" THEN o[2] ELSE cur
     /\ alive' = CASE o[1] = "set" -> alive \cup {0}
                   [] o[1] = "ready" -> {Full(Geo)}
                   [] o[1] \in {"close", "free", "fail-make"} -> {0}
                   [] o[1] \in {"fp", "bp"} -> {Full(Geo)}
                   [] single /\ Geo.single -> {Full(Geo)}
                   [] OTHER -> alive \cup {Full(Geo)}
     /\ outcome' = CASE o[1] \in {"fail-make", "fail-run"} -> "failed"
                     [] o[1] = "wrong" -> "refused"
                     [] single /\ ~Geo.single -> "refused"
                     [] OTHER -> "ok"
     /\ UNCHANGED iid
Next == Len(hist) < I.depth /\ \E m \in 1..Len(I.menu) : Do(m)
Spec == Init /\ [][Next]_vars

(* what was allocated is released, whatever happened in between *)
Released == (hist # <<>> /\ I.menu[hist[Len(hist)]][1] \in {"close", "free"}) => alive = {0}
(* never more than one generation of projectors *)
OneGeneration == \A c \in alive : c = 0 \/ \E g \in 1..Len(I.geoms) : c = Full(I.geoms[g])
(* the weights of a voxel that is well inside the detector add up to one *)
Conserved ==
  (hist = <<>>) => \A g \in 1..Len(I.geoms) :
    LET G == I.geoms[g]  H == Hits(G)  W == Mats(G)
    IN \A a \in 1..Na(G) : \A k \in 1..NVox(G) :
         LET in(h, n) == DLe(1, h) /\ DLe(h, n)
             s == DSum([p \in 1..(G.nv * G.nu) |-> W[a][p][k]])
         IN /\ DLeq(s, 1)
            /\ (in(H[a][k][1], G.nu) /\ (G.nd = 2 \/ in(H[a][k][2], G.nv))) => DClose(s, 1)

Results(G) == LET W == Mats(G)  b == BpA(G, W)  f == Fp(G, W)
              IN [fp |-> [a \in 1..Na(G) |-> VOut(f[a])], bpa |-> [a \in 1..Na(G) |-> VOut(b[a])],
                  bp |-> VOut(VSumUp(b, Na(G)))]
EmitAll == /\ hist = <<>> => \A g \in 1..Len(I.geoms) : Emit([iid |-> iid, geom |-> g, res |-> Results(I.geoms[g])])
           /\ hist # <<>> => Emit([iid |-> iid, hist |-> hist, alive |-> alive, outcome |-> outcome, cur |-> cur])
=============================================================================
