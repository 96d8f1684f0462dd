-------------------------------- MODULE T_C05 --------------------------------
(* Recorded parses of network texts are parses of the specification. *)
EXTENDS NetText, TraceBase
Step(s, e) ==
  LET W == e.i.w
      a == ParseNet(W, e.i.t, TRUE)
      b == ParseNet(W, e.i.t, FALSE)
  IN Determined(s, e, [scode |-> a.code, snet |-> a.net, code |-> b.code, net |-> b.net,
                       smask |-> MaskW(W, a.net.plen), mask |-> MaskW(W, b.net.plen), alt |-> <<>>])
Init == TInit(0)
Next == TNext(Step)
=============================================================================
