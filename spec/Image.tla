------------------------------- MODULE Image --------------------------------
(* Two-dimensional images (flattened, ny rows of nx) seen through coordinate *)
(* transformations, with bilinear interpolation, zero outside; parallel-beam *)
(* projections; attenuation along a beam.  Rows and columns are 0-based.     *)
EXTENDS Transforms

Pix(v, ny, nx, r, c) == IF r < 0 \/ r >= ny \/ c < 0 \/ c >= nx THEN 0 ELSE v[r * nx + c + 1]
Bil(v, ny, nx, r, c) ==
  LET r0 == DFloor(r)  c0 == DFloor(c)  fr == DSub(r, r0)  fc == DSub(c, c0)
      gr == DSub(1, fr)  gc == DSub(1, fc)
  IN IF r0 < -1 \/ r0 >= ny \/ c0 < -1 \/ c0 >= nx THEN 0
     ELSE DAdd(DAdd(DMul(DMul(gr, gc), Pix(v, ny, nx, r0, c0)), DMul(DMul(gr, fc), Pix(v, ny, nx, r0, c0 + 1))),
               DAdd(DMul(DMul(fr, gc), Pix(v, ny, nx, r0 + 1, c0)), DMul(DMul(fr, fc), Pix(v, ny, nx, r0 + 1, c0 + 1))))
(* value at (r, c) of the image turned by the angle of cosine co and sine si about (cy, cx) *)
TurnAt(v, ny, nx, co, si, cy, cx, r, c) ==
  LET dy == DSub(r, cy)  dx == DSub(c, cx)
  IN Bil(v, ny, nx, DAdd(cy, DSub(DMul(co, dy), DMul(si, dx))), DAdd(cx, DAdd(DMul(co, dx), DMul(si, dy))))
Turn(v, ny, nx, co, si, cy, cx) ==
  Force([i \in 1..(ny * nx) |-> TurnAt(v, ny, nx, co, si, cy, cx, (i - 1) \div nx, (i - 1) % nx)])

(* parallel-beam projection of a square image: sums of the columns after a turn about pixel n \div 2 *)
Radon(v, n, ang) ==
  LET co == DCos(ang)  si == DSin(ang)
      t == Turn(v, n, n, co, si, n \div 2, n \div 2)
  IN Force([u \in 1..n |-> DSum([r \in 1..n |-> t[(r - 1) * n + u]])])
(* back-projection of one line: linear interpolation on the detector, zero outside of it *)
Smear(p, n, ang) ==
  LET co == DCos(ang)  si == DSin(ang)  h == n \div 2
  IN Force([i \in 1..(n * n) |->
       LET row == (i - 1) \div n  col == (i - 1) % n
           pos == DAdd(h, DSub(DMul(col - h, co), DMul(row - h, si)))
           k == DFloor(pos)
           f == DSub(pos, k)
       IN IF DLt(pos, 0) \/ DLt(n - 1, pos) THEN 0
          ELSE IF k = n - 1 THEN p[n] ELSE DAdd(DMul(DSub(1, f), p[k + 1]), DMul(f, p[k + 2]))])

-----------------------------------------------------------------------------
(* optical thickness from the edge of the volume to each voxel, along the beam of angle ang: *)
(* the padded volume is turned, summed down the columns (the voxel itself by half), turned back *)
CeilDiv2(d) == LET k == DFloor(d) IN IF DEq(k, d) THEN k ELSE k + 1
PadEdge(ny, nx, s) == LET diag == CeilDiv2(DSqrt(ny * ny + nx * nx)) IN (diag - s + 1) \div 2
Center(n) == DSub(DDiv(n, 2), "0.5")
Thickness(v, ny, nx, ang) ==
  LET ey == PadEdge(ny, nx, ny)  ex == PadEdge(ny, nx, nx)
      my == ny + 2 * ey  mx == nx + 2 * ex
      co == DCos(ang)  si == DSin(ang)
      pad == Force([i \in 1..(my * mx) |-> Pix(v, ny, nx, ((i - 1) \div mx) - ey, ((i - 1) % mx) - ex)])
      tur == Turn(pad, my, mx, co, si, Center(my), Center(mx))
      cum == Force([i \in 1..(my * mx) |->
               LET r == (i - 1) \div mx  c == (i - 1) % mx
               IN DSub(DSum([q \in 1..(r + 1) |-> tur[(q - 1) * mx + c + 1]]), DDiv(tur[i], 2))])
      bck == Turn(cum, my, mx, co, DNeg(si), Center(my), Center(mx))
  IN Force([i \in 1..(ny * nx) |-> bck[(((i - 1) \div nx) + ey) * mx + ((i - 1) % nx) + ex + 1]])
(* photons of the incident beam run along the angle; emitted ones towards it *)
Transmission(v, ny, nx, ang) == LET t == Thickness(v, ny, nx, ang) IN Force([i \in DOMAIN t |-> DExp(DNeg(t[i]))])
=============================================================================
