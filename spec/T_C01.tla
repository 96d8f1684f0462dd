-------------------------------- MODULE T_C01 --------------------------------
(* Recorded IPv4 parses are parses of the specification. *)
EXTENDS Ipv4Text, TraceBase
Step(s, e) ==
  LET r == ParseV4(e.i.t)
  IN Determined(s, e, [code |-> r.code, b |-> r.bytes, alt |-> <<>>])
Init == TInit(0)
Next == TNext(Step)
=============================================================================
