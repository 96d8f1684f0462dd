-------------------------------- MODULE T_C20 --------------------------------
(* Recorded arithmetic of 128-bit integers is that of the specification.  The state is an accumulator. *)
EXTENDS U128, TraceBase
Bin(a, b) == [add |-> AddW(a, b), sub |-> SubW(a, b), mul |-> MulW(a, b), and |-> AndW(a, b), or |-> OrW(a, b), xor |-> XorW(a, b)]
Same(o, r) == \A k \in DOMAIN r : o[k] = r[k]
Step(s, e) ==
  CASE e.op = "pair" ->
         LET a == e.i.a  b == e.i.b
             r == Bin(a, b)
             u == [neg |-> NegW(a), not |-> NotW(a), inc |-> IncW(a), dec |-> DecW(a), alt |-> <<>>]
         IN Constrained(s, Same(e.o, r) /\ Same(e.o, u) /\ Divided(a, b, e.o.q, e.o.r), r)
    [] e.op = "shift" -> Determined(s, e, [l |-> ShiftLeft(e.i.a, e.i.n), r |-> ShiftRight(e.i.a, e.i.n), alt |-> <<>>])
    [] e.op = "mixed" ->
         LET a == e.i.a
             k == Extend(e.i.k, e.i.signed, 16)
             r == Bin(a, k)
         IN Constrained(s, Same(e.o, r) /\ e.o.rsub = SubW(k, a) /\ Divided(a, k, e.o.q, e.o.r) /\ Divided(k, a, e.o.rq, e.o.rr) /\ e.o.alt = <<>>, r)
    [] e.op = "set" -> Determined(e.i.b, e, [x |-> e.i.b, alt |-> <<>>])
    [] e.op = "acc" ->
         LET b == IF e.i.self THEN s ELSE e.i.b
             q == DivMod(s, b)
             x == CASE e.i.f = "add" -> AddW(s, b) [] e.i.f = "sub" -> SubW(s, b) [] e.i.f = "mul" -> MulW(s, b)
                    [] e.i.f = "and" -> AndW(s, b) [] e.i.f = "or" -> OrW(s, b) [] e.i.f = "xor" -> XorW(s, b)
                    [] e.i.f = "div" -> q.q [] e.i.f = "mod" -> q.r
                    [] e.i.f = "shl" -> ShiftLeft(s, e.i.n) [] e.i.f = "shr" -> ShiftRight(s, e.i.n)
                    [] e.i.f \in {"inc", "pinc"} -> IncW(s) [] e.i.f \in {"dec", "pdec"} -> DecW(s)
                    [] e.i.f = "neg" -> NegW(s) [] OTHER -> NotW(s)
             got == IF e.i.f \in {"pinc", "pdec"} THEN s ELSE x
         IN Determined(x, e, [x |-> x, got |-> got, alt |-> <<>>])
Init == TInit(Zero(16))
Next == TNext(Step)
=============================================================================
