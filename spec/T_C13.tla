-------------------------------- MODULE T_C13 --------------------------------
(* Recorded comparisons, sorted and hashed collections and swaps are those of the total order. *)
EXTENDS Order, TraceBase
Step(s, e) ==
  CASE e.op = "pair" ->
         LET c == Cmp(e.i.x, e.i.y)
         IN Determined(s, e, [lt |-> c < 0, le |-> c <= 0, gt |-> c > 0, ge |-> c >= 0, eq |-> c = 0, ne |-> c # 0,
                              rlt |-> c > 0, rle |-> c >= 0, rgt |-> c < 0, rge |-> c <= 0, req |-> c = 0, rne |-> c # 0,
                              x2 |-> e.i.y, y2 |-> e.i.x, alt |-> <<>>])
    [] e.op = "sort" ->
         LET ok == /\ InOrder(e.o.sorted) /\ IsReordering(e.o.sorted, e.i.xs)
                   /\ InStrictOrder(e.o.set) /\ Elements(e.o.set) = Elements(e.i.xs)
                   /\ e.o.buckets = Cardinality(Elements(e.i.xs)) /\ e.o.found = Len(e.i.xs)
                   /\ e.o.alt = <<>>
         IN Constrained(s, ok, "sorted permutation, strictly sorted set of the elements, as many buckets as elements")
Init == TInit(0)
Next == TNext(Step)
=============================================================================
