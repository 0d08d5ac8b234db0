------------------------------- MODULE Motion -------------------------------
(* Rigid motions in three dimensions.  Rows: one vector per angle, or one    *)
(* for all the angles.                                                       *)
EXTENDS Vec

Row(rows, k) == rows[IF Len(rows) = 1 THEN 1 ELSE k]
MaxN(a, b) == IF a < b THEN b ELSE a
Cross(a, b) == <<DSub(DMul(a[2], b[3]), DMul(a[3], b[2])), DSub(DMul(a[3], b[1]), DMul(a[1], b[3])), DSub(DMul(a[1], b[2]), DMul(a[2], b[1]))>>
(* rotation of x by the angle ang times the length of the axis (Rodrigues) *)
Rot(ang, axis, x) ==
  LET len == VNorm2(axis)
      th == DMul(ang, len)
  IN IF DEq(th, 0) THEN x
     ELSE LET k == VScale(DDiv(1, len), axis)
              c == DCos(th)  s == DSin(th)
          IN VAdd(VAdd(VScale(c, x), VScale(s, Cross(k, x))), VScale(DMul(DDot(k, x), DSub(1, c)), k))
RotRows(angs, axis, rows) == Force([k \in 1..MaxN(Len(angs), Len(rows)) |-> Rot(Row(angs, k), axis, Row(rows, k))])
=============================================================================
