-------------------------------- MODULE Emit --------------------------------
(* Output channel of the specifications: one JSON document per line, which *)
(* the conformance harness replays on the real code.                       *)
EXTENDS Sequences, TLC, Json
Emit(v) == PrintT("@@" \o ToJson(v))
=============================================================================
