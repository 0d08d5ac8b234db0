-------------------------------- MODULE Ghost --------------------------------
(* Collections of illumination masks with the bucket values measured with    *)
(* them, derived one from the other: reordered, decomposed, made positive,   *)
(* binned; projected, back-projected, and inverted in the least-squares      *)
(* sense; alone, and after a tomographic projection.                         *)
(* instances.json: [fov : sizes, enc, dec : rows (one per bucket), imgs : rows, noise : row, *)
(*    menu : seq of [op, k], depth, tomo : <<>> or <<[R, nv, nw, nu, vol, bk]>>] *)
EXTENDS Vec, Emit
Inst == JsonDeserialize("instances.json")
VARIABLES iid, c, hist
vars == <<iid, c, hist>>
I == Inst[iid]

Dot(M, v) == MatVec(M, v)
Comb(w, M) == MatVec(Transp(M), w)                       \* sum of the rows of M with weights w
MatMul(M, X) == Force([k \in DOMAIN X |-> Dot(M, X[k])])  \* one row per image

(* Gram-Schmidt: the rows of M are R^T Q, with positive diagonal *)
RECURSIVE Less(_, _, _)
Less(v, Q, k) == IF k = 0 THEN v ELSE Less(VSub(v, VScale(DDot(v, Q[k]), Q[k])), Q, k - 1)
RECURSIVE Orth(_, _, _)
Orth(M, Q, k) == IF k > Len(M) THEN Q
                 ELSE LET w == Less(M[k], Q, Len(Q)) IN Orth(M, Append(Q, VScale(DDiv(1, VNorm2(w)), w)), k + 1)
QOf(M) == Orth(M, <<>>, 1)
(* solve R^T q = b by forward substitution, R^T = M Q^T *)
RECURSIVE Fwd(_, _, _, _)
Fwd(L, b, q, k) == IF k > Len(b) THEN q
                   ELSE Fwd(L, b, Append(q, DDiv(DSub(b[k], DSum([j \in 1..(k - 1) |-> DMul(L[k][j], q[j])])), L[k][k])), k + 1)
Lower(M, Q) == Force([k \in DOMAIN M |-> [j \in DOMAIN Q |-> IF j > k THEN 0 ELSE DDot(M[k], Q[j])]])
(* solve L^T x = y by backward substitution *)
RECURSIVE Bwd(_, _, _, _)
Bwd(L, y, x, k) == IF k = 0 THEN x
                   ELSE Bwd(L, y, <<DDiv(DSub(y[k], DSum([j \in 1..(Len(y) - k) |-> DMul(L[k + j][k], x[j])])), L[k][k])>> \o x, k - 1)
(* least-squares solution (of least norm) of M x = b, for matrices of full rank *)
LeastSq(M, b) ==
  IF Len(M) <= Len(M[1])
  THEN LET Q == QOf(M) IN Comb(Fwd(Lower(M, Q), b, <<>>, 1), Q)
  ELSE LET T == Transp(M)  Q == QOf(T) IN Bwd(Lower(T, Q), Dot(Q, b), <<>>, Len(T))

Roll(s, k) == [i \in 1..Len(s) |-> s[((i - 1 + k) % Len(s)) + 1]]
(* binning of the images: mean over blocks of b pixels along each axis *)
RECURSIVE Size(_)
Size(sh) == IF sh = <<>> THEN 1 ELSE Head(sh) * Size(Tail(sh))
BinRow(v, fov, b) ==
  IF Len(fov) = 1
  THEN Force([i \in 1..(fov[1] \div b) |-> DDiv(DSum([j \in 1..b |-> v[(i - 1) * b + j]]), b)])
  ELSE LET w == fov[2] \div b
       IN Force([p \in 1..((fov[1] \div b) * w) |->
            LET r == ((p - 1) \div w) * b  q == ((p - 1) % w) * b
            IN DDiv(DSum([j \in 1..(b * b) |-> v[(r + ((j - 1) \div b)) * fov[2] + q + ((j - 1) % b) + 1]]), b * b)])

-----------------------------------------------------------------------------
Init == /\ iid \in 1..Len(Inst)
        /\ c = [fov |-> I.fov, enc |-> I.enc, dec |-> I.dec, imgs |-> I.imgs, same |-> I.sym,
                bk |-> [k \in DOMAIN I.imgs |-> Dot(I.enc, I.imgs[k])], ok |-> TRUE, q |-> FALSE]
        /\ hist = <<>>
Reorder(k) == c' = [c EXCEPT !.enc = Roll(@, k), !.dec = Roll(@, k), !.bk = [i \in DOMAIN @ |-> Roll(@[i], k)]]
Decompose(k) == LET M == Roll(c.enc, k)  Q == QOf(M)  L == Lower(M, Q)
                IN c' = [c EXCEPT !.enc = Q, !.dec = Q, !.bk = [i \in DOMAIN @ |-> Fwd(L, Roll(@[i], k), <<>>, 1)], !.q = TRUE, !.same = TRUE]
Absolute == c' = [c EXCEPT !.enc = MatAbs(@), !.dec = MatAbs(@), !.ok = FALSE, !.q = FALSE]
BinMasks(b) == c' = [c EXCEPT !.enc = Force([k \in DOMAIN @ |-> BinRow(@[k], c.fov, b)]), !.dec = Force([k \in DOMAIN @ |-> BinRow(@[k], c.fov, b)]),
                       !.imgs = Force([k \in DOMAIN @ |-> BinRow(@[k], c.fov, b)]), !.fov = [k \in DOMAIN @ |-> @[k] \div b], !.ok = FALSE, !.q = FALSE]
Enabled(o) == CASE o.op = "qr" -> c.same /\ Len(c.enc) <= Len(c.enc[1])
                [] o.op = "bin" -> \A k \in DOMAIN c.fov : c.fov[k] % o.k = 0
                [] OTHER -> TRUE
Do(o) == CASE o.op = "reorder" -> Reorder(o.k) [] o.op = "qr" -> Decompose(o.k) [] o.op = "abs" -> Absolute [] o.op = "bin" -> BinMasks(o.k)
Next == /\ Len(hist) < I.depth
        /\ \E m \in DOMAIN I.menu : /\ Enabled(I.menu[m]) /\ Do(I.menu[m])
                                    /\ hist' = Append(hist, m) /\ UNCHANGED iid
Spec == Init /\ [][Next]_vars

(* masks and buckets stay together *)
Consistent == c.ok => \A k \in DOMAIN c.imgs : VClose(c.bk[k], Dot(c.enc, c.imgs[k]))
Orthonormal == c.q => \A i, j \in DOMAIN c.enc : DClose(DDot(c.enc[i], c.enc[j]), IF i = j THEN 1 ELSE 0)

Noisy == VAdd(c.bk[1], I.noise)
Rec == LeastSq(c.enc, Noisy)
(* the normal equations; and, underdetermined, in the row space: least norm *)
NormalEquations == VClose(Comb(Dot(c.enc, Rec), c.enc), Comb(Noisy, c.enc))
(* scaled about the mean by the undersampling *)
Scaled(x) == LET n == Len(x)  m == DDiv(DSum(x), n)
             IN Force([i \in DOMAIN x |-> DAdd(m, DDiv(DMul(DSub(x[i], m), n), Len(c.enc)))])

(* ghost tomography: the images of the angles are projected one by one *)
T == I.tomo[1]
ImgAt(prj, w) == Force([i \in 1..(T.nv * T.nu) |-> prj[((i - 1) \div T.nu) * T.nw * T.nu + (w - 1) * T.nu + ((i - 1) % T.nu) + 1]])
GtFp(vol) == LET prj == Dot(T.R, vol) IN Force([w \in 1..T.nw |-> Dot(c.enc, ImgAt(prj, w))])
GtBp(bk) ==
  LET ims == Force([w \in 1..T.nw |-> Comb(bk[w], c.dec)])
      prj == Force([i \in 1..(T.nv * T.nw * T.nu) |->
               LET u == (i - 1) % T.nu  w == ((i - 1) \div T.nu) % T.nw  v == (i - 1) \div (T.nu * T.nw)
               IN ims[w + 1][v * T.nu + u + 1]])
  IN Comb(prj, T.R)
HasTomo == I.tomo # <<>> /\ c.fov = I.fov
GtAdjoint == (HasTomo /\ c.same) =>
   LET f == GtFp(T.vol) IN DClose(DSum([w \in 1..T.nw |-> DDot(f[w], T.bk[w])]), DDot(T.vol, GtBp(T.bk)))

MOut(M) == [k \in DOMAIN M |-> VOut(M[k])]
EmitAll == Emit([iid |-> iid, hist |-> hist, fov |-> c.fov, enc |-> MOut(c.enc), dec |-> MOut(c.dec), bk |-> MOut(c.bk),
                 fp |-> MOut(MatMul(c.enc, c.imgs)), imgs |-> MOut(c.imgs), bp |-> [k \in DOMAIN c.bk |-> VOut(Comb(c.bk[k], c.dec))],
                 rec |-> VOut(Rec), scaled |-> VOut(Scaled(Rec)),
                 gfp |-> IF HasTomo THEN MOut(GtFp(T.vol)) ELSE <<>>, gbp |-> IF HasTomo THEN VOut(GtBp(T.bk)) ELSE <<>>,
                 grec |-> IF HasTomo THEN [w \in 1..T.nw |-> VOut(LeastSq(c.enc, T.bk[w]))] ELSE <<>>])
=============================================================================
