-------------------------------- MODULE T_C06 --------------------------------
(* Recorded constructions of networks, and histories of registers of networks, are the specification's. *)
EXTENDS NetRegs, TraceBase
Made(e) ==
  LET W == Len(e.i.a)
      r == MakeNet(e.i.a, e.i.s, IF e.i.plen = -1 THEN Bits(W) ELSE e.i.plen, e.i.strict)
      n == r.net
  IN [code |-> r.code, net |-> n, mask |-> NetMask(n), host |-> HostMask(n), last |-> Broadcast(n),
      count |-> AddrCount(n), text |-> FormatNet(n, FmtCompressed), bits |-> W, alt |-> <<>>]
Shows(s2, e, code) == Determined(s2, e, [code |-> code, all |-> [k \in 1..3 |-> Says(s2[k])], alt |-> <<>>])
Step(s, e) ==
  LET i == e.i IN
  CASE e.op = "from" -> Determined(s, e, Made(e))
    [] e.op = "regs" -> Shows(Blank(i.w), e, ErrNone)
    [] e.op = "put" -> LET m == MakeNet(i.a, i.s, i.plen, i.strict) IN Shows(Put(s, i.r, m.net), e, m.code)
    [] e.op = "parse" -> LET m == ParseNet(Len(s[1].addr), i.t, i.strict) IN Shows(Put(s, i.r, m.net), e, m.code)
    [] e.op = "copy" -> Shows(Put(s, i.r, s[i.q]), e, ErrNone)
    [] e.op = "swap" -> Shows(Exchanged(s, i.r, i.q), e, ErrNone)
    [] e.op = "reverse" -> Shows(Reversed(s), e, ErrNone)
    [] e.op = "rotate" -> Shows(Rotated(s), e, ErrNone)
    [] e.op = "sort" -> Shows(Sorted(s), e, ErrNone)
    [] e.op = "super" -> Shows(Put(s, i.r, Supernet(s[i.q], i.diff, i.new)), e, SupernetCode(s[i.q], i.diff, i.new))
    [] e.op = "sub" -> Shows(Derived(s, i.r, s[i.q], i.new, i.which), e, SubnetsCode(s[i.q], 1, i.new))
    [] e.op = "rest" -> Shows(Remainder(s, i.r, s[i.q], s[i.o], i.k), e, ExcludeCode(s[i.q], s[i.o]))
Init == TInit(0)
Next == TNext(Step)
=============================================================================
