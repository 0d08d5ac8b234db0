------------------------------ MODULE Guarded ------------------------------
(* Objects whose operations are guarded: an operation before its time, or   *)
(* with arguments that do not fit what the object holds, is refused, and a  *)
(* refused operation is a stuttering step: what follows is what it would be *)
(* had it not been tried. Sessions mix both kinds in every order; the       *)
(* harness plays each on the real objects, with and without the refused     *)
(* operations.                                                              *)
EXTENDS Naturals, Sequences, FiniteSets, Emit
CONSTANT Depth

Kinds == {"tuner", "regularizer", "geometry", "spectrum"}
Fresh(k) == CASE k = "tuner" -> [first |-> "none", second |-> "unset"]
              [] k = "regularizer" -> [shape |-> 0]
              [] k = "geometry" -> [det |-> 1, src |-> 1]
              [] k = "spectrum" -> [held |-> 0]
(* the commands: <<operation, argument, argument>> *)
Commands(k) ==
  CASE k = "tuner" -> {<<"init", v, 0>> : v \in 0..4} \union {<<"exec", v, 0>> : v \in 1..4} \union {<<"read", 0, 0>>, <<"compute", 0, 0>>}
    [] k = "regularizer" -> {<<"init", 1, 0>>, <<"init", 2, 0>>, <<"zero", 0, 0>>, <<"step", 0, 0>>, <<"back", 0, 0>>}
    [] k = "geometry" -> {<<"det", n, m>> : n \in 1..3, m \in 1..3} \union {<<"src", n, 0>> : n \in 1..3} \union {<<"tilt", n, m>> : n \in 1..2, m \in 1..3} \union {<<"move", 0, n>> : n \in 2..3}
    [] k = "spectrum" -> {<<"direct", 1, 0>>, <<"direct", 2, 0>>, <<"adjoint", 0, 0>>}

Fits(a, b) == a = 1 \/ b = 1 \/ a = b
Max(a, b) == IF a > b THEN a ELSE b
(* 0: none, 1 and 2: functions that fit, 3: one that does not fit, 4: no function *)
Guard(k, s, c) ==
  CASE k = "tuner" -> (CASE c[1] \in {"init", "exec"} -> c[2] <= 2 [] OTHER -> s.second # "unset")
    [] k = "regularizer" -> c[1] = "init" \/ s.shape > 0
    [] k = "geometry" -> (CASE c[1] = "det" -> Fits(c[2], c[3]) /\ Fits(s.det, c[2])
                            [] c[1] = "src" -> Fits(s.src, c[2])
                            [] c[1] = "tilt" -> c[3] # 3 /\ (c[2] = 1 \/ c[2] = c[3])      \* axes: one, two, or not in space
                            [] OTHER -> c[3] = 3)
    [] k = "spectrum" -> c[1] = "direct" \/ s.held > 0
Name(v) == CASE v = 0 -> "none" [] v = 1 -> "one" [] OTHER -> "two"
Effect(k, s, c) ==
  CASE k = "tuner" -> (CASE c[1] = "init" -> [s EXCEPT !.first = Name(c[2])] [] c[1] = "exec" -> [s EXCEPT !.second = Name(c[2])] [] OTHER -> s)
    [] k = "regularizer" -> IF c[1] = "init" THEN [shape |-> c[2]] ELSE s
    [] k = "geometry" -> (CASE c[1] = "det" -> [s EXCEPT !.det = Max(c[2], c[3])] [] c[1] = "src" -> [s EXCEPT !.src = Max(c[2], s.src)] [] OTHER -> s)
    [] k = "spectrum" -> IF c[1] = "direct" THEN [held |-> c[2]] ELSE s

VARIABLES kind, obj, hist, quiet
vars == <<kind, obj, hist, quiet>>
(* quiet: the object that was only asked what it can do *)
Init == /\ kind \in Kinds
        /\ obj = Fresh(kind) /\ quiet = obj /\ hist = <<>>
Done(c) == /\ Len(hist) < Depth[kind] /\ Guard(kind, obj, c)
           /\ obj' = Effect(kind, obj, c) /\ quiet' = Effect(kind, quiet, c)
           /\ hist' = Append(hist, [cmd |-> c, ok |-> TRUE, obj |-> obj']) /\ UNCHANGED kind
Refused(c) == /\ Len(hist) < Depth[kind] /\ ~Guard(kind, obj, c)
              /\ hist' = Append(hist, [cmd |-> c, ok |-> FALSE, obj |-> obj]) /\ UNCHANGED <<kind, obj, quiet>>
Next == \E c \in Commands(kind) : Done(c) \/ Refused(c)
Spec == Init /\ [][Next]_vars

RefusedIsStutter == quiet = obj
RefusedKeeps == [][Len(hist') > Len(hist) /\ ~hist'[Len(hist')].ok => obj' = obj]_vars
EmitSession == Len(hist) = Depth[kind] => Emit([kind |-> kind, hist |-> hist])
=============================================================================
