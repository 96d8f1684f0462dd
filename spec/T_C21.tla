-------------------------------- MODULE T_C21 --------------------------------
(* Recorded comparisons and conversions of 128-bit integers are those of the specification. *)
EXTENDS U128, TraceBase
Cmp(a, b) == [eq |-> a = b, ne |-> a # b, lt |-> LtW(a, b), le |-> LeW(a, b), gt |-> LtW(b, a), ge |-> LeW(b, a), alt |-> <<>>]
(* what floating-point operands become: through double *)
FromFloat(i) ==
  CASE i.cls = "nan" -> Zero(16)
    [] i.neg -> Zero(16)
    [] i.cls = "inf" -> Ones(16)
    [] OTHER -> LET d == IF i.kind = "l" THEN NearestOf([m |-> i.m, e |-> i.e], 53) ELSE [m |-> i.m, e |-> i.e]
                IN Truncated(d.m, d.e, 16)
Step(s, e) ==
  CASE e.op = "cmp" ->
         LET a == e.i.a  b == e.i.b
         IN Determined(s, e, Cmp(a, b) @@ [and |-> ~IsZero(a) /\ ~IsZero(b), or |-> ~IsZero(a) \/ ~IsZero(b), not |-> IsZero(a), bool |-> ~IsZero(a)])
    [] e.op = "cmpk" -> Determined(s, e, Cmp(e.i.a, Extend(e.i.k, e.i.signed, 16)))
    [] e.op = "from" -> Determined(s, e, [x |-> Extend(e.i.k, e.i.signed, 16), alt |-> <<>>])
    [] e.op = "to" ->
         LET Low(n) == ResizeW(e.i.a, n)
         IN Determined(s, e, [upper |-> SubSeq(e.i.a, 1, 8), lower |-> Low(8),
                              c |-> Low(1), sc |-> Low(1), uc |-> Low(1), s |-> Low(2), us |-> Low(2), i |-> Low(4), ui |-> Low(4),
                              l |-> Low(8), ul |-> Low(8), ll |-> Low(8), ull |-> Low(8), alt |-> <<>>])
    [] e.op = "todouble" ->
         LET d == Nearest(e.i.a, 53)
         IN Determined(s, e, [d |-> d, l |-> d, f |-> LET f == NearestOf(d, 24) IN IF f.e + 24 > 128 THEN [m |-> Zero(8), e |-> 999] ELSE f, alt |-> <<>>])
    [] e.op = "fromdouble" -> Determined(s, e, [x |-> FromFloat(e.i), alt |-> <<>>])
    [] e.op = "limits" ->
         Determined(s, e, [min |-> Zero(16), max |-> Ones(16), lowest |-> Zero(16), digits |-> 128, digits10 |-> 38, radix |-> 2,
                           integer |-> TRUE, signed |-> FALSE, exact |-> TRUE, bounded |-> TRUE, modulo |-> TRUE, special |-> TRUE, infinity |-> FALSE, alt |-> <<>>])
Init == TInit(0)
Next == TNext(Step)
=============================================================================
