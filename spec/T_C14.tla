-------------------------------- MODULE T_C14 --------------------------------
(* Recorded categories of addresses and networks are those of the specification. *)
EXTENDS Classify, TraceBase
With(r) == [multicast |-> r.multicast, private |-> r.private, global |-> r.global, reserved |-> r.reserved, loopback |-> r.loopback,
            link_local |-> r.link_local, unspecified |-> r.unspecified, site_local |-> r.site_local, alt |-> <<>>]
Step(s, e) ==
  CASE e.op = "addr" -> Determined(s, e, With(AddrCategories(e.i.b)))
    [] e.op = "net" -> Determined(s, e, With(NetCategories(e.i.n)))
Init == TInit(0)
Next == TNext(Step)
=============================================================================
