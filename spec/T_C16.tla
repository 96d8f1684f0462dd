-------------------------------- MODULE T_C16 --------------------------------
(* Recorded parses of encoded texts are parses of the specification. *)
EXTENDS Encoded, TraceBase
Old == <<122>>
(* a rejected character is named, in halves; builds without exceptions have no message *)
Halves(K, sym) == IF K \in {"U", "w"} THEN sym ELSE <<sym \div 65536, sym % 65536>>
Named(K, u, r, throws) == [k \in DOMAIN r |-> IF throws /\ r[k].code = ErrSymbol THEN Halves(K, Decoded(K, u).sym) ELSE <<0, 0>>]
Step(s, e) ==
  LET K == e.i.k  u == e.i.u  c == CutAtNul(K, u)
  IN CASE e.op = "text" -> LET r == EncParses(K, u, FALSE) IN Determined(s, e, [r |-> r, sym |-> Named(K, u, r, e.i.x), scope |-> EncScope(K, u, Old), alt |-> <<>>])
       [] e.op = "array" -> LET r == EncParses(K, c, TRUE) IN Determined(s, e, [r |-> r, sym |-> Named(K, c, r, e.i.x), alt |-> <<>>])
       [] e.op = "scope_array" ->
            (* a decoding error is found before anything else *)
            LET d == Decoded(K, c)
            IN Determined(s, e, [scope |-> IF d.code # ErrNone THEN [code |-> d.code, s |-> Old] ELSE EncScope(K, c, Old), alt |-> <<>>])
Init == TInit(0)
Next == TNext(Step)
=============================================================================
