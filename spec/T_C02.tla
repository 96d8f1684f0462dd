-------------------------------- MODULE T_C02 --------------------------------
(* Recorded IPv6 parses are parses of the specification. *)
EXTENDS Ipv6Text, TraceBase
Step(s, e) ==
  LET r == ParseV6(e.i.t)
  IN Determined(s, e, [code |-> r.code, b |-> r.bytes, s |-> r.scope, alt |-> <<>>])
Init == TInit(0)
Next == TNext(Step)
=============================================================================
