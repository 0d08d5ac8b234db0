----------------------------- MODULE Transforms -----------------------------
(* The linear transforms of the package on flattened (row-major) volumes.    *)
EXTENDS Reg

ISqrt2 == DDiv(1, DSqrt(2))
(* the matrix of a linear map *)
Unit(n, j) == [i \in 1..n |-> IF i = j THEN 1 ELSE 0]
FromMap(n, F(_)) == Transp(Force([j \in 1..n |-> F(Unit(n, j))]))

(* Discrete Fourier transform along the axes, orthonormal: real rows, then imaginary rows *)
Pi == "3.14159265358979323846264338327950288419716939937510582097494"
RECURSIVE Turns(_, _, _, _, _)
Turns(shape, axes, i, j, k) ==
  IF k = 0 THEN 0
  ELSE DAdd(DDiv(Coord(shape, axes[k], i) * Coord(shape, axes[k], j), shape[axes[k]]), Turns(shape, axes, i, j, k - 1))
RECURSIVE DftSize(_, _, _)
DftSize(shape, axes, k) == IF k = 0 THEN 1 ELSE shape[axes[k]] * DftSize(shape, axes, k - 1)
SameOther(shape, axes, i, j) == \A a \in 1..Len(shape) : (\E k \in 1..Len(axes) : axes[k] = a) \/ Coord(shape, a, i) = Coord(shape, a, j)
DftMat(shape, axes) ==
  LET n == Size(shape)  c == DDiv(1, DSqrt(DftSize(shape, axes, Len(axes))))
  IN [q \in 1..(2 * n) |->
        LET i == ((q - 1) % n) + 1
        IN [j \in 1..n |->
             IF ~SameOther(shape, axes, i, j) THEN 0
             ELSE LET ph == DMul(DMul(2, Pi), Turns(shape, axes, i, j, Len(axes)))
                  IN IF q <= n THEN DMul(c, DCos(ph)) ELSE DNeg(DMul(c, DSin(ph)))]]

-----------------------------------------------------------------------------
(* apply g (a map of sequences, giving newlen elements) along axis a *)
AlongAxis(v, shape, a, newlen, g(_)) ==
  LET s == Stride(shape, a)
      L == shape[a]
      outer == Size(shape) \div (L * s)
      line(o, j) == [c \in 1..L |-> v[(o * L + (c - 1)) * s + j + 1]]
      lines == Force([o \in 1..outer |-> [j \in 1..s |-> g(Force(line(o - 1, j - 1)))]])
  IN Force([i \in 1..(outer * newlen * s) |->
        LET z == i - 1
        IN lines[(z \div (newlen * s)) + 1][(z % s) + 1][((z \div s) % newlen) + 1]])

(* index k (0-based, any integer) of a signal of length n extended by the mode; -1 where it is zero *)
Ext(mode, n, k) ==
  CASE k >= 0 /\ k < n -> k
    [] mode \in {"edge", "constant_pywt"} -> IF k < 0 THEN 0 ELSE n - 1
    [] mode \in {"wrap", "periodic"} -> k % n
    [] mode \in {"symmetric"} -> LET m == k % (2 * n) IN IF m < n THEN m ELSE 2 * n - 1 - m
    [] mode \in {"reflect"} -> IF n = 1 THEN 0 ELSE LET m == k % (2 * n - 2) IN IF m < n THEN m ELSE 2 * n - 2 - m
    [] OTHER -> -1
ExtAt(v, mode, k) == LET e == Ext(mode, Len(v), k) IN IF e < 0 THEN 0 ELSE v[e + 1]

(* convolution with a centred kernel of odd sizes (kshape, flattened), same size, padded by the mode *)
KOff(kshape, a, q) == (((q - 1) \div ProdFrom(kshape, a + 1)) % kshape[a]) - ((kshape[a] - 1) \div 2)
RECURSIVE FromCoords(_, _, _)
FromCoords(shape, cs, a) == IF a = 0 THEN 0 ELSE FromCoords(shape, cs, a - 1) * shape[a] + cs[a]
Conv(v, shape, kernel, kshape, mode) ==
  [i \in 1..Size(shape) |->
     DSum([q \in 1..Len(kernel) |->
       LET cs == [a \in 1..Len(shape) |-> Ext(mode, shape[a], Coord(shape, a, i) - KOff(kshape, a, q))]
       IN IF \E a \in 1..Len(shape) : cs[a] < 0 THEN 0
          ELSE DMul(kernel[q], v[FromCoords(shape, cs, Len(shape)) + 1])])]
Flip(kernel) == [q \in 1..Len(kernel) |-> kernel[Len(kernel) + 1 - q]]

-----------------------------------------------------------------------------
(* one line through a filter of the stationary wavelet transform, at dilation d *)
SwtLine(v, f, d, c) == LET n == Len(v)  h == Len(f) \div 2
                       IN Force([i \in 1..n |-> DMul(c, DSum([k \in 1..Len(f) |-> DMul(f[k], v[((i - 1 + h * d - (k - 1) * d) % n) + 1])]))])
(* the band "b" (one bit per axis, the last axis is the lowest bit: 1 is the detail) *)
BitOf(b, k, m) == (b \div (2 ^ (m - k))) % 2
RECURSIVE SwtBand(_, _, _, _, _, _, _, _, _)
SwtBand(v, shape, axes, b, lo, hi, d, c, k) ==
  IF k > Len(axes) THEN v
  ELSE LET f == IF BitOf(b, k, Len(axes)) = 1 THEN hi ELSE lo
           g(l) == SwtLine(l, f, d, c)
       IN SwtBand(AlongAxis(v, shape, axes[k], shape[axes[k]], g), shape, axes, b, lo, hi, d, c, k + 1)
(* all bands: the approximation, then the details from the coarsest level to the finest *)
RECURSIVE SwtFrom(_, _, _, _, _, _, _, _)
SwtFrom(v, shape, axes, lo, hi, c, lvl, L) ==
  LET d == 2 ^ (lvl - 1)
      det == Force([b \in 1..(2 ^ Len(axes) - 1) |-> SwtBand(v, shape, axes, b, lo, hi, d, c, 1)])
      app == SwtBand(v, shape, axes, 0, lo, hi, d, c, 1)
  IN IF lvl = L THEN <<app>> \o det ELSE SwtFrom(app, shape, axes, lo, hi, c, lvl + 1, L) \o det
RECURSIVE Cat(_, _)
Cat(ss, k) == IF k = 0 THEN <<>> ELSE Cat(ss, k - 1) \o ss[k]
(* padding before the stationary transform: ceil(p/2) before, floor(p/2) after *)
PadLen(n, al) == (al - (n % al)) % al
PadLine(v, al, mode) == LET n == Len(v)  p == PadLen(n, al)  lft == (p + 1) \div 2
                        IN [i \in 1..(n + p) |-> ExtAt(v, mode, i - 1 - lft)]
RECURSIVE PadAxes(_, _, _, _, _, _)
PadAxes(v, shape, axes, al, mode, k) ==
  IF k > Len(axes) THEN [v |-> v, shape |-> shape]
  ELSE LET a == axes[k]  n2 == shape[a] + PadLen(shape[a], al)  g(l) == PadLine(l, al, mode)
       IN PadAxes(AlongAxis(v, shape, a, n2, g), [shape EXCEPT ![a] = n2], axes, al, mode, k + 1)
Swt(v, shape, axes, lo, hi, L, norm, mode) ==
  LET p == PadAxes(v, shape, axes, 2 ^ L, mode, 1)
      bands == SwtFrom(p.v, p.shape, axes, lo, hi, IF norm THEN ISqrt2 ELSE 1, 1, L)
  IN Cat(bands, Len(bands))

-----------------------------------------------------------------------------
(* decimated wavelets: one line through both filters, approximation then detail *)
DwtLen(n, F, mode) == IF mode = "periodization" THEN (n + 1) \div 2 ELSE (n + F - 1) \div 2
DwtLine1(v, f, mode) ==
  LET n == Len(v)  F == Len(f)
  IN [i \in 1..DwtLen(n, F, mode) |->
       DSum([k \in 1..F |-> DMul(f[k],
         IF mode = "periodization" THEN v[((2 * (i - 1) + F \div 2 - (k - 1)) % n) + 1]
         ELSE ExtAt(v, IF mode = "constant" THEN "edge" ELSE mode, 2 * (i - 1) + 1 - (k - 1)))])]
DwtLine(v, lo, hi, mode) == Force(DwtLine1(v, lo, mode) \o DwtLine1(v, hi, mode))
(* one-dimensional, L levels: [cA_L, cD_L, ..., cD_1] *)
RECURSIVE Dwt1(_, _, _, _, _)
Dwt1(v, lo, hi, mode, L) == IF L = 0 THEN v
                            ELSE Dwt1(Force(DwtLine1(v, lo, mode)), lo, hi, mode, L - 1) \o Force(DwtLine1(v, hi, mode))
(* several axes, sizes divisible by 2^L, lengths preserved (Haar, or periodization): *)
(* each level transforms the corner of the approximations                            *)
RECURSIVE DwtAxes(_, _, _, _, _, _, _)
DwtAxes(v, shape, axes, lo, hi, mode, k) ==
  IF k > Len(axes) THEN v
  ELSE LET g(l) == DwtLine(l, lo, hi, mode)
       IN DwtAxes(AlongAxis(v, shape, axes[k], shape[axes[k]], g), shape, axes, lo, hi, mode, k + 1)
InCorner(shape, sub, i) == \A a \in 1..Len(shape) : Coord(shape, a, i) < sub[a]
CornerIdx(shape, sub, i) == FromCoords(sub, [a \in 1..Len(shape) |-> Coord(shape, a, i)], Len(shape)) + 1
FullIdx(shape, sub, i) == FromCoords(shape, [a \in 1..Len(shape) |-> Coord(sub, a, i)], Len(shape)) + 1
HalfOn(sub, axes) == [a \in 1..Len(sub) |-> IF \E k \in 1..Len(axes) : axes[k] = a THEN sub[a] \div 2 ELSE sub[a]]
RECURSIVE DwtN(_, _, _, _, _, _, _, _)
DwtN(v, shape, sub, axes, lo, hi, mode, L) ==
  IF L = 0 THEN v
  ELSE LET corner == Force([i \in 1..Size(sub) |-> v[FullIdx(shape, sub, i)]])
           t == DwtAxes(corner, sub, axes, lo, hi, mode, 1)
           w == Force([i \in 1..Size(shape) |-> IF InCorner(shape, sub, i) THEN t[CornerIdx(shape, sub, i)] ELSE v[i]])
       IN DwtN(w, shape, HalfOn(sub, axes), axes, lo, hi, mode, L - 1)

-----------------------------------------------------------------------------
(* singular values of a matrix with at most two rows or columns, in decreasing order *)
SingVals2(R) == LET a == DDot(R[1], R[1])  b == DDot(R[1], R[2])  c == DDot(R[2], R[2])
                h == DDiv(DAdd(a, c), 2)
                dd == DDiv(DSub(a, c), 2)
                q == DSqrt(DAdd(DMul(dd, dd), DMul(b, b)))
            IN <<DSqrt(DMax(0, DAdd(h, q))), DSqrt(DMax(0, DSub(h, q)))>>
SingVals(R) == IF Len(R) = 1 THEN <<VNorm2(R[1])>>
               ELSE IF Len(R[1]) = 1 THEN <<VNorm2(Transp(R)[1])>>
               ELSE IF Len(R) = 2 THEN SingVals2(R) ELSE SingVals2(Transp(R))
=============================================================================
