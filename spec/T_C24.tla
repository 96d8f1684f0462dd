-------------------------------- MODULE T_C24 --------------------------------
(* Recorded histories of three fixed strings, three byte arrays and three optionals. *)
EXTENDS Containers, TraceBase
Regs == 1..3
State0 == [f |-> [r \in Regs |-> <<>>], b |-> [r \in Regs |-> <<>>], o |-> [r \in Regs |-> <<>>]]
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Quiet(s, e) == Determined(s, e, [alt |-> <<>>])
Step(s, e) ==
  LET i == e.i IN
  CASE e.op = "fnew" ->
         LET x == FixedNew(i.k, i.u, i.cap)
         IN Determined([s EXCEPT !.f[i.r] = x.text], e, [code |-> x.code, alt |-> <<>>])
    [] e.op = "fcopy" -> Quiet([s EXCEPT !.f[i.r] = s.f[i.q]], e)
    [] e.op = "fswap" -> Quiet([s EXCEPT !.f = Exchange(s.f, i.r, i.q)], e)
    [] e.op = "flook" ->
         LET t == s.f[i.r]
         IN Determined(s, e, [text |-> t, rev |-> Backwards(t), size |-> Len(t), empty |-> t = <<>>, cap |-> i.cap,
                              cells |-> Cells(t, i.cap), front |-> First(t), back |-> Final(t),
                              cmp |-> [q \in Regs |-> CmpText(t, s.f[q])],
                              same |-> [q \in Regs |-> t = s.f[q]], alt |-> <<>>])
    [] e.op = "bnew" -> Quiet([s EXCEPT !.b[i.r] = i.v], e)
    [] e.op = "bput" -> Quiet([s EXCEPT !.b[i.r] = Put(s.b[i.r], i.at, i.v)], e)
    [] e.op = "bcopy" -> Quiet([s EXCEPT !.b[i.r] = s.b[i.q]], e)
    [] e.op = "bswap" -> Quiet([s EXCEPT !.b = Exchange(s.b, i.r, i.q)], e)
    [] e.op = "blook" ->
         LET t == s.b[i.r]
         IN Determined(s, e, [bytes |-> t, rev |-> Backwards(t), size |-> Len(t), front |-> First(t), back |-> Final(t),
                              cmp |-> [q \in Regs |-> CmpW(t, s.b[q])], alt |-> <<>>])
    [] e.op \in {"onew", "oput"} -> Quiet([s EXCEPT !.o[i.r] = <<i.v>>], e)
    [] e.op = "onone" -> Quiet([s EXCEPT !.o[i.r] = <<>>], e)
    [] e.op = "ocopy" -> Quiet([s EXCEPT !.o[i.r] = s.o[i.q]], e)
    [] e.op = "omut" -> Quiet([s EXCEPT !.o[i.r] = <<i.v>>], e)
    [] e.op = "otake" -> Determined([s EXCEPT !.o[i.r] = <<>>], e, [v |-> s.o[i.r][1], alt |-> <<>>])
    [] e.op = "olook" ->
         LET t == s.o[i.r]
         IN Determined(s, e, [has |-> t # <<>>, v |-> IF t = <<>> THEN -1 ELSE t[1], alt |-> <<>>])
Init == TInit(State0)
Next == TNext(Step)
=============================================================================
