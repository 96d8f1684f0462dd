-------------------------------- MODULE T_C09 --------------------------------
(* Recorded exclusions of networks are those of the specification. *)
EXTENDS ExcludeRegs, TraceBase
Empty == [i \in 1..3 |-> First(DefNet(4), DefNet(4))]
Shown(s) == [i \in 1..3 |-> Block1(s[i])]
Step(s, e) ==
  CASE e.op = "exc" ->
         LET x == e.i.x y == e.i.y
         IN IF Len(x.addr) # Len(y.addr) THEN Determined(s, e, [code |-> ErrVersion, all |-> <<>>, alt |-> <<>>])
            ELSE Determined(s, e, [code |-> ExcludeCode(x, y), all |-> Exclude(x, y), alt |-> <<>>])
    [] OTHER ->                                        \* registers of iterators
         LET s2 == CASE e.op = "put" -> Assign(s, e.i.r, First(e.i.x, e.i.y))
                     [] e.op = "end" -> Assign(s, e.i.r, Past(e.i.x, e.i.y))
                     [] e.op = "inc" -> Assign(s, e.i.r, Stepped(s[e.i.r]))
                     [] e.op = "pinc" -> Assign(Assign(s, e.i.r, Stepped(s[e.i.r])), e.i.q, s[e.i.r])
                     [] e.op = "copy" -> Assign(s, e.i.q, s[e.i.r])
                     [] e.op = "swap" -> SwapRegs(s, e.i.r, e.i.q)
                     [] e.op = "cmp" -> s
         IN Determined(s2, e, [all |-> Shown(s2), eq |-> e.op = "swap" \/ s2[e.i.r] = s2[e.i.q], alt |-> <<>>])
Init == TInit(Empty)
Next == TNext(Step)
=============================================================================
