-------------------------------- MODULE T_C08 --------------------------------
(* Recorded subnets and supernets are those of the specification. *)
EXTENDS NetAlg, TraceBase
AllLimit == 64
Step(s, e) ==
  LET n == e.i.n W == Len(n.addr)
  IN CASE e.op = "sup" ->
         LET c == SupernetCode(n, e.i.diff, e.i.new)
             r == Supernet(n, e.i.diff, e.i.new)
         IN Determined(s, e, [code |-> c, net |-> r, mask |-> NetMask(r),
                              holds |-> HasAddr(r, n.addr) /\ HasAddr(r, Broadcast(n)), alt |-> <<>>])
    [] e.op = "subs" ->
         LET c == SubnetsCode(n, e.i.diff, e.i.new)
             p == SubnetsPlen(n, e.i.diff, e.i.new)
             size == SubnetsSize(n, p)
             small == FitsNat(size) /\ ToNat(size) \in 1..AllLimit
         IN IF c # ErrNone
            THEN Determined(s, e, [code |-> c, empty |-> TRUE, size |-> Zero(W), first |-> 0, last |-> 0, at |-> <<>>, all |-> <<>>, alt |-> <<>>])
            ELSE Determined(s, e, [code |-> c, empty |-> FALSE, size |-> size,
                   first |-> SubnetAt(n, p, Zero(W)), last |-> SubnetAt(n, p, LastIndex(n, p)),
                   at |-> TLCEval([k \in 1..Len(e.i.at) |-> SubnetAt(n, p, e.i.at[k])]),
                   all |-> IF small THEN TLCEval([k \in 1..ToNat(size) |-> SubnetAt(n, p, NatW(k - 1, W))]) ELSE <<>>, alt |-> <<>>])
Init == TInit(0)
Next == TNext(Step)
=============================================================================
