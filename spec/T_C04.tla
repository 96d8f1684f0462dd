-------------------------------- MODULE T_C04 --------------------------------
(* Recorded histories of three address registers are histories of the specification. *)
EXTENDS Scope, Classify, TraceBase
View(r) == LET v == ScopeView(r) IN [b |-> r.b, text |-> v.text, has_text |-> v.has_text, has_num |-> v.has_num, num |-> v.num]
Shown(code, r) == [code |-> code, r |-> View(r), alt |-> <<>>]
(* only the address, not the scope id, decides categories and embedded addresses *)
Step(s, e) ==
  CASE e.op = "parse" ->
         LET p == ParseInto(e.i.t)
             s2 == IF p.code = ErrNone THEN [s EXCEPT ![e.i.r] = p.r] ELSE s
         IN Determined(s2, e, Shown(p.code, s2[e.i.r]))
    [] e.op = "set" ->
         LET s2 == [s EXCEPT ![e.i.r] = SetScope(s[e.i.r], e.i.t)]
         IN Determined(s2, e, Shown(SetScopeCode(s[e.i.r], e.i.t), s2[e.i.r]))
    [] e.op = "copy" -> LET s2 == [s EXCEPT ![e.i.r] = s[e.i.q]] IN Determined(s2, e, Shown(ErrNone, s2[e.i.r]))
    [] e.op = "swap" -> LET s2 == [s EXCEPT ![e.i.r] = s[e.i.q], ![e.i.q] = s[e.i.r]]
                        IN Determined(s2, e, [code |-> ErrNone, r |-> View(s2[e.i.r]), q |-> View(s2[e.i.q]), alt |-> <<>>])
    [] e.op = "cmp" -> LET x == s[e.i.r] y == s[e.i.q]
                       IN Determined(s, e, [same |-> x = y, same_scope |-> x.s = y.s, loopback |-> AddrCategories(x.b).loopback,
                                            link_local |-> AddrCategories(x.b).link_local, num |-> x.b, alt |-> <<>>])
Init == TInit([i \in 1..3 |-> Blank])
Next == TNext(Step)
=============================================================================
