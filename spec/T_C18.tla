-------------------------------- MODULE T_C18 --------------------------------
(* Recorded failures and successes, in both forms, are those of the specification. *)
EXTENDS Errors, TraceBase
CONSTANT Throws
Old == <<122>>
As(t) == IF Throws THEN t ELSE Nothing
Step(s, e) ==
  CASE e.op \in {"text", "array"} ->
         LET whole == e.op = "array"
             K == e.i.k
             u == IF whole THEN CutAtNul(K, e.i.u) ELSE e.i.u
             r == Reports(K, u, TRUE, whole)
         IN Determined(s, e, [k \in Kinds \cup {"alt"} |-> IF k = "alt" THEN <<>> ELSE IF Throws THEN r[k] ELSE [r[k] EXCEPT !.thrown = Nothing]])
    [] e.op = "long" -> Determined(s, e, [thrown |-> As(Thrown(ErrTooLong, 0, Shown(e.i.k, e.i.u))), default |-> TRUE, alt |-> <<>>])
    [] e.op = "scope" ->
         LET r == EncScope(e.i.k, e.i.u, Old)
         IN Determined(s, e, [r |-> r, thrown |-> As(Thrown(r.code, SymOf(e.i.k, Decoded(e.i.k, e.i.u)), Shown(e.i.k, e.i.u))), alt |-> <<>>])
    [] e.op = "from" ->
         LET r == MakeNet(e.i.b, e.i.s, e.i.plen, e.i.strict)
         IN Determined(s, e, [r |-> r, thrown |-> As(Thrown(r.code, 0, FormatAddr(e.i.b, e.i.s, FmtCompressed))), alt |-> <<>>])
    [] e.op = "super" ->
         Determined(s, e, [r |-> [code |-> SupernetCode(e.i.n, e.i.diff, e.i.new), net |-> Supernet(e.i.n, e.i.diff, e.i.new)],
                           thrown |-> As(Thrown(SupernetCode(e.i.n, e.i.diff, e.i.new), 0, <<>>)), alt |-> <<>>])
    [] e.op = "subs" ->
         LET c == SubnetsCode(e.i.n, e.i.diff, e.i.new)
         IN Determined(s, e, [code |-> c, empty |-> c # ErrNone, thrown |-> As(Thrown(c, 0, <<>>)), alt |-> <<>>])
    [] e.op = "excl" ->
         LET c == AnyExcludeCode(e.i.n, e.i.o)
         IN Determined(s, e, [code |-> c, empty |-> Len(AnyExclude(e.i.n, e.i.o)) = 0,
                              thrown |-> As(Thrown(c, 0, <<>>)), alt |-> <<>>])
Init == TInit(0)
Next == TNext(Step)
=============================================================================
