-------------------------------- MODULE T_C10 --------------------------------
(* Recorded sequences of hosts are those of the specification. *)
EXTENDS NetAlg, TraceBase
AllLimit == 70
Host(n, idx) == [b |-> HostAt(n, idx), s |-> <<>>]
Step(s, e) ==
  LET n == e.i.n W == Len(n.addr)
      size == HostsCount(n)
      small == FitsNat(size) /\ ToNat(size) \in 1..AllLimit
  IN Determined(s, e, [empty |-> FALSE, size |-> size, first |-> Host(n, Zero(W)), last |-> Host(n, DecW(size)),
       at |-> TLCEval([k \in 1..Len(e.i.at) |-> Host(n, e.i.at[k])]),
       all |-> IF small THEN TLCEval([k \in 1..ToNat(size) |-> HostAt(n, NatW(k - 1, W))]) ELSE <<>>, alt |-> <<>>])
Init == TInit(0)
Next == TNext(Step)
=============================================================================
