-------------------------------- MODULE T_C17 --------------------------------
(* Recorded histories of registers of either version are histories of the specification. *)
EXTENDS AnyIp, TraceBase
All(s) == [a |-> s.a, n |-> s.n]
Shows(s, e, code) == Determined(s, e, [code |-> code, all |-> All(s), alt |-> <<>>])
Rel(c) == [lt |-> c < 0, gt |-> c > 0, eq |-> c = 0]
Step(s, e) ==
  CASE e.op = "puta" -> Shows(SetA(s, e.i.r, e.i.v), e, ErrNone)
    [] e.op = "putn" -> Shows(SetN(s, e.i.r, e.i.v), e, ErrNone)
    [] e.op = "parsea" -> LET p == ParseInto(e.i.t) IN Shows(SetA(s, e.i.r, p.r), e, p.code)
    [] e.op = "parsen" -> LET p == ParseAnyNet(e.i.t, e.i.strict) IN Shows(SetN(s, e.i.r, p.net), e, p.code)
    [] e.op = "copya" -> Shows(SetA(s, e.i.r, s.a[e.i.q]), e, ErrNone)
    [] e.op = "copyn" -> Shows(SetN(s, e.i.r, s.n[e.i.q]), e, ErrNone)
    [] e.op = "swapa" -> Shows(SwapA(s, e.i.r, e.i.q), e, ErrNone)
    [] e.op = "swapn" -> Shows(SwapN(s, e.i.r, e.i.q), e, ErrNone)
    [] e.op = "scope" -> Shows(SetA(s, e.i.r, SetScope(s.a[e.i.r], e.i.t)), e, SetScopeCode(s.a[e.i.r], e.i.t))
    [] e.op = "make" ->                               \* a network from the address in a register
         LET r == s.a[e.i.q] W == Len(r.b) m == MakeNet(r.b, r.s, IF e.i.plen = -1 THEN Bits(W) ELSE e.i.plen, e.i.strict)
         IN Shows(SetN(s, e.i.r, m.net), e, m.code)
    [] e.op = "super" ->
         LET n == s.n[e.i.q] IN Shows(SetN(s, e.i.r, Supernet(n, e.i.diff, e.i.new)), e, SupernetCode(n, e.i.diff, e.i.new))
    [] e.op = "sub" ->                                \* the last subnet
         LET n == s.n[e.i.q] c == SubnetsCode(n, e.i.diff, e.i.new) p == SubnetsPlen(n, e.i.diff, e.i.new)
         IN Shows(IF c = ErrNone THEN SetN(s, e.i.r, SubnetAt(n, p, LastIndex(n, p))) ELSE s, e, c)
    [] e.op = "viewa" -> Determined(s, e, [view |-> AddrView(s.a[e.i.r]), alt |-> <<>>])
    [] e.op = "viewn" -> Determined(s, e, [view |-> NetView(s.n[e.i.r]), alt |-> <<>>])
    [] e.op = "cmpa" -> Determined(s, e, [rel |-> Rel(Cmp(AsPoint(s.a[e.i.r]), AsPoint(s.a[e.i.q]))), alt |-> <<>>])
    [] e.op = "cmpn" ->
         LET x == s.n[e.i.r] y == s.n[e.i.q]
         IN Determined(s, e, [rel |-> Rel(Cmp(NetPoint(x), NetPoint(y))), overlaps |-> AnyOverlaps(x, y), subnet |-> AnySubnetOf(x, y),
                              supernet |-> AnySubnetOf(y, x), code |-> AnyExcludeCode(x, y), rest |-> AnyExclude(x, y), alt |-> <<>>])
    [] e.op = "has" -> Determined(s, e, [has |-> AnyHas(s.n[e.i.r], s.a[e.i.q]), alt |-> <<>>])
Init == TInit(Blanks)
Next == TNext(Step)
=============================================================================
