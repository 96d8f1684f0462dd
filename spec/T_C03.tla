-------------------------------- MODULE T_C03 --------------------------------
(* Recorded texts of addresses and networks are the specification's. *)
EXTENDS NetText, TraceBase
Texts(f(_)) == [full |-> f(FmtFull), compact |-> f(FmtCompact), compressed |-> f(FmtCompressed), alt |-> <<>>]
Step(s, e) ==
  IF e.op = "addr"
  THEN LET t == Texts(LAMBDA f : FormatAddr(e.i.b, e.i.s, f))
       IN Determined(s, e, [full |-> t.full, compact |-> t.compact, compressed |-> t.compressed, alt |-> <<>>,
                            rev |-> IF Len(e.i.b) = 4 THEN ReverseV4(e.i.b) ELSE ReverseV6(e.i.b)])
  ELSE Determined(s, e, Texts(LAMBDA f : FormatNet(e.i.n, f)))
Init == TInit(0)
Next == TNext(Step)
=============================================================================
