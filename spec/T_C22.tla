-------------------------------- MODULE T_C22 --------------------------------
(* Recorded texts of 128-bit integers, both ways, are those of the specification. *)
EXTENDS Streams, TraceBase
Step(s, e) ==
  CASE e.op = "text" -> Determined(s, e, [t |-> Text(e.i.a, e.i.base, FALSE), alt |-> <<>>])
    [] e.op = "parse" ->
         LET r == Parse(Numbers(e.i.k, e.i.u), e.i.base, 16)
         IN Determined(s, e, [ok |-> r.ok, v |-> r.v, alt |-> <<>>])
    [] e.op = "none" -> Determined(s, e, [n |-> 0, alt |-> <<>>])          \* a string type this language standard does not have
Init == TInit(0)
Next == TNext(Step)
=============================================================================
