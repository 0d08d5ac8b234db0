-------------------------------- MODULE Dec --------------------------------
(* Real arithmetic for the numerical parts of the specification.            *)
(* The definitions below are the meaning.  TLC evaluates them through the   *)
(* module override java/DecOverrides.java: a real is written as a decimal   *)
(* numeral (a string, or a small integer) and every operation is carried    *)
(* out with 60 significant digits, i.e. far below the rounding of the       *)
(* double precision code that is compared with the specification.           *)
EXTENDS Reals, Sequences

DAdd(a, b) == a + b
DSub(a, b) == a - b
DMul(a, b) == a * b
DDiv(a, b) == a / b
DNeg(a)    == 0 - a
DLe(a, b)  == a <= b
DLt(a, b)  == a < b
DEq(a, b)  == a = b
DMax(a, b) == IF DLe(a, b) THEN b ELSE a
DMin(a, b) == IF DLe(a, b) THEN a ELSE b
DAbs(a)    == IF DLe(0, a) THEN a ELSE DNeg(a)
DSgn(a)    == IF DLt(0, a) THEN 1 ELSE IF DLt(a, 0) THEN -1 ELSE 0
DSqrt(a)   == CHOOSE y \in Real : 0 <= y /\ y * y = a
\* transcendental functions have no closed TLA+ definition: their meaning is the override
DExp(a)    == CHOOSE y \in Real : TRUE
DLn(a)     == CHOOSE y \in Real : TRUE
DSin(a)    == CHOOSE y \in Real : TRUE
DCos(a)    == CHOOSE y \in Real : TRUE
DFloor(a)  == CHOOSE n \in Int : n <= a /\ a < n + 1
RECURSIVE DPow(_, _)
DPow(a, n) == IF n = 0 THEN 1 ELSE a * DPow(a, n - 1)
RECURSIVE DSum(_)
DSum(s)    == IF s = <<>> THEN 0 ELSE DAdd(Head(s), DSum(Tail(s)))
DDot(u, v) == DSum([i \in 1..Len(u) |-> DMul(u[i], v[i])])
\* the identity; a hint to TLC, that otherwise evaluates a sequence anew at each access
Force(v)   == v
\* the numeral cut to 25 significant digits: what is printed
DOut(a)    == a
=============================================================================
