-------------------------------- MODULE T_C07 --------------------------------
(* Recorded relations between networks are those of the specification. *)
EXTENDS NetAlg, TraceBase
Step(s, e) ==
  CASE e.op = "has" ->
         Determined(s, e, [has |-> Len(e.i.b) = Len(e.i.x.addr) /\ HasAddr(e.i.x, e.i.b), alt |-> <<>>])
    [] e.op = "rel" ->
         LET x == e.i.x y == e.i.y both == Len(x.addr) = Len(y.addr)
         IN Determined(s, e, [overlaps |-> both /\ Overlaps(x, y), overlapped |-> both /\ Overlaps(x, y),
                              subnet |-> both /\ SubnetOf(x, y), supernet |-> both /\ SubnetOf(y, x), alt |-> <<>>])
Init == TInit(0)
Next == TNext(Step)
=============================================================================
