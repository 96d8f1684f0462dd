-------------------------------- MODULE T_C15 --------------------------------
(* Recorded extractions of embedded IPv4 addresses are those of the specification. *)
EXTENDS Classify, TraceBase
Step(s, e) ==
  CASE e.op = "emb" ->
         Determined(s, e, [mapped |-> Mapped4(e.i.b), sixtofour |-> SixToFour(e.i.b), server |-> TeredoServer(e.i.b), client |-> TeredoClient(e.i.b), alt |-> <<>>])
Init == TInit(0)
Next == TNext(Step)
=============================================================================
