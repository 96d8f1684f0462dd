-------------------------------- MODULE T_C23 --------------------------------
(* Recorded conversions between integers, bytes and addresses are those of the specification. *)
EXTENDS Convert, TraceBase
IntText(k) == IF Len(k) = 4 THEN FormatV4(k) ELSE FormatV6(k, FmtCompressed)
Step(s, e) ==
  CASE e.op = "u4" ->
         Determined(s, e, [bytes |-> e.i.k, back |-> e.i.k, text |-> IntText(e.i.k), swapped |-> Swapped(e.i.k), alt |-> <<>>])
    [] e.op = "u6" ->
         Determined(s, e, [bytes |-> e.i.k, back |-> e.i.k, text |-> IntText(e.i.k), alt |-> <<>>])
    [] e.op \in {"raw4", "raw6"} ->
         LET b == FromBytes(e.i.raw, IF e.op = "raw4" THEN 4 ELSE 16)
         IN Determined(s, e, [bytes |-> b, int |-> b, alt |-> <<>>])
    [] e.op = "any" ->
         Determined(s, e, [low |-> ToUint32(e.i.a.b), all |-> ToUint128(e.i.a.b), data |-> e.i.a.b, alt |-> <<>>])
Init == TInit(0)
Next == TNext(Step)
=============================================================================
