-------------------------------- MODULE Masks --------------------------------
(* Generation of the illumination masks: the shifts of a pattern, in a given *)
(* order; pencil beams and modified uniformly redundant arrays (MURA).       *)
(* instances.json: [kind : "point" | "mura" | "free", n : <<rows, cols>> (field of view), ns : <<rows, cols>> (shifts), *)
(*   shift : "sequential" | "interval" | "random", num, den : fraction of the buckets, tn, td : transmittance,          *)
(*   got : recorded shifts, for the random ones]                              *)
EXTENDS Integers, Sequences, FiniteSets, Vec, Emit
Inst == JsonDeserialize("instances.json")
VARIABLES iid
vars == <<iid>>
I == Inst[iid]

CeilDiv(a, b) == (a + b - 1) \div b
Min(a, b) == IF a < b THEN a ELSE b
All(step) == LET rows == CeilDiv(I.ns[1], step)  cols == CeilDiv(I.ns[2], step)
             IN [k \in 1..(rows * cols) |-> <<((k - 1) \div cols) * step, ((k - 1) % cols) * step>>]
Wanted == Min(CeilDiv(I.n[1] * I.n[2] * I.num, I.den), I.ns[1] * I.ns[2])
Shifts == CASE I.shift = "sequential" -> [k \in 1..Wanted |-> All(1)[k]]
            [] I.shift = "interval" -> All(CeilDiv(I.den, I.num))
            [] I.shift = "random" -> I.got
(* a random choice: the wanted number of different shifts *)
RandomOk == I.shift = "random" => /\ Len(I.got) = Wanted
                                  /\ Cardinality({I.got[k] : k \in DOMAIN I.got}) = Len(I.got)
                                  /\ \A k \in DOMAIN I.got : I.got[k][1] \in 0..(I.ns[1] - 1) /\ I.got[k][2] \in 0..(I.ns[2] - 1)

Prime(p) == p > 1 /\ \A d \in 2..(p - 1) : p % d # 0
QRes(n, i) == \E k \in 1..(n - 1) : (k * k) % n = i % n
Mura(n, i, j) == IF i = 0 THEN 0 ELSE IF j = 0 THEN 1 ELSE IF QRes(n, i) = QRes(n, j) THEN 1 ELSE 0
MuraDec(n, i, j) == IF i = 0 /\ j = 0 THEN 1 ELSE Mura(n, i, j)
Mod(a, n) == ((a % n) + n) % n
Pattern(s, i, j, enc) ==
  CASE I.kind = "point" -> IF i = s[1] /\ j = s[2] THEN 1 ELSE 0
    [] I.kind = "mura" -> LET p == Mod(i - s[1], I.n[1])  q == Mod(j - s[2], I.n[2])
                          IN IF enc THEN Mura(I.n[1], p, q) ELSE MuraDec(I.n[1], p, q)
(* 1 - (1 - m) t, in units of 1 / td *)
Lit(m) == I.td - (1 - m) * I.tn
Mask(s, enc) == [k \in 1..(I.n[1] * I.n[2]) |-> Lit(Pattern(s, (k - 1) \div I.n[2], (k - 1) % I.n[2], enc))]

(* the cross-correlation of encoding and decoding MURA is a peak on a constant *)
Corr(n, a, b) == LET t == [k \in 1..(n * n) |-> Mura(n, (k - 1) \div n, (k - 1) % n) * MuraDec(n, Mod(((k - 1) \div n) + a, n), Mod(((k - 1) % n) + b, n))]
                 IN DSum(t)
Decodes == (I.kind = "mura" /\ Prime(I.n[1])) =>
   LET n == I.n[1] IN \A a, b \in 0..(n - 1) : IF a = 0 /\ b = 0 THEN Corr(n, a, b) > Corr(n, 0, 1) ELSE Corr(n, a, b) = Corr(n, 0, 1)
(* all the pencil beams together see each pixel once *)
Partition == (I.kind = "point" /\ I.shift = "sequential" /\ I.num = I.den) =>
   \A i \in 0..(I.n[1] - 1), j \in 0..(I.n[2] - 1) : Cardinality({k \in DOMAIN Shifts : Pattern(Shifts[k], i, j, TRUE) = 1}) = 1

(* sizes of the MURA up to that of the field of view *)
RECURSIVE Up(_, _)
Up(k, m) == IF k > m THEN <<>> ELSE (IF k % 4 = 1 /\ Prime(k) THEN <<k>> ELSE <<>>) \o Up(k + 1, m)

Init == iid \in 1..Len(Inst)
Spec == Init /\ [][UNCHANGED vars]_vars
EmitAll == Emit([iid |-> iid, ok |-> RandomOk, count |-> Wanted, shifts |-> Shifts, sizes |-> Up(1, I.n[1]),
                 enc |-> IF I.kind = "free" THEN <<>> ELSE [k \in DOMAIN Shifts |-> Mask(Shifts[k], TRUE)],
                 dec |-> IF I.kind = "mura" THEN [k \in DOMAIN Shifts |-> Mask(Shifts[k], FALSE)] ELSE <<>>])
=============================================================================
