------------------------------- MODULE LinAlg -------------------------------
(* Small linear systems and least squares.                                   *)
EXTENDS Vec
(* Gaussian elimination, without pivoting: for normal equations *)
RECURSIVE Solve(_, _)
Solve(A, b) ==
  LET n == Len(b)
  IN IF n = 1 THEN <<DDiv(b[1], A[1][1])>>
     ELSE LET y == Solve(Force([r \in 1..(n - 1) |-> Force([c \in 1..(n - 1) |-> DSub(A[r + 1][c + 1], DDiv(DMul(A[r + 1][1], A[1][c + 1]), A[1][1]))])]),
                         Force([r \in 1..(n - 1) |-> DSub(b[r + 1], DDiv(DMul(A[r + 1][1], b[1]), A[1][1]))]))
          IN <<DDiv(DSub(b[1], DSum([c \in 1..(n - 1) |-> DMul(A[1][c + 1], y[c])])), A[1][1])>> \o y
(* least squares: X has one row per value of y *)
LeastSquares(X, y) ==
  LET T == Transp(X)
  IN Solve(Force([a \in DOMAIN T |-> Force([b \in DOMAIN T |-> DDot(T[a], T[b])])]), MatVec(T, y))
FitResidual(X, y) == VSub(y, MatVec(X, LeastSquares(X, y)))
=============================================================================
