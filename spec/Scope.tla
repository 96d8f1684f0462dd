--------------------------------- MODULE Scope ---------------------------------
(* Addresses as mutable objects: registers holding an address of either version, *)
(* with a scope id on IPv6 addresses.  A register is [b: bytes, s: scope text].   *)
EXTENDS Ipv6Text

Blank == [b |-> Zero(16), s |-> <<>>]
IsV4(r) == Len(r.b) = 4

(* verdict and effect of setting a scope id to text t *)
SetScopeCode(r, t) == IF IsV4(r) THEN ErrNone ELSE SetScopeVerdict(t)
SetScope(r, t) ==
  IF IsV4(r) \/ ScopeMax = 0 \/ SetScopeCode(r, t) # ErrNone THEN r ELSE [r EXCEPT !.s = t]

(* what a register shows of its scope id *)
ScopeView(r) ==
  LET v == ScopeValue(r.s)
  IN [text |-> r.s, has_text |-> r.s # <<>>, has_num |-> v # <<>>, num |-> IF v = <<>> THEN Zero(4) ELSE v]

(* parsing into a register, of whichever version the text is *)
ParseInto(t) ==
  LET v4 == ParseV4(t)
      v6 == ParseV6(t)
  IN IF v4.code = ErrNone THEN [code |-> ErrNone, r |-> [b |-> v4.bytes, s |-> <<>>]]
     ELSE IF v6.code = ErrNone THEN [code |-> ErrNone, r |-> [b |-> v6.bytes, s |-> v6.scope]]
     ELSE [code |-> v6.code, r |-> [b |-> Zero(4), s |-> <<>>]]
=============================================================================
