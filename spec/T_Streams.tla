-------------------------------- MODULE T_Streams --------------------------------
(* Recorded histories of four streams, two narrow and two wide, are histories of the specification. *)
EXTENDS Streams, TraceBase
Kind(i) == IF i <= 2 THEN "c" ELSE "w"
Start == [i \in 1..4 |-> Fresh(Kind(i))]
Seen(s) == [eof |-> s.eof, fail |-> s.fail, w |-> s.w, left |-> Len(s.in)]
Addrs == {"v4", "v6", "any"}
Step(st0, e) ==
  LET k == e.i.s
      s == st0[k]
      Shows(r) == Determined([st0 EXCEPT ![k] = r], e, [s |-> Seen(r), alt |-> <<>>])
      Puts(r) == Determined([st0 EXCEPT ![k] = r.s], e, [s |-> Seen(r.s), out |-> r.out, alt |-> <<>>])
  IN CASE e.op = "feed" -> Shows([s EXCEPT !.in = @ \o e.i.u])
       [] e.op = "clear" -> Shows([s EXCEPT !.eof = FALSE, !.fail = FALSE])
       [] e.op = "width" -> Shows([s EXCEPT !.w = e.i.n])
       [] e.op = "fill" -> Shows([s EXCEPT !.fill = e.i.n])
       [] e.op = "manip" -> Shows(Manip(s, e.i.m))
       [] e.op = "copyfmt" -> Shows(CopyFmt(s, st0[e.i.from]))
       [] e.op = "other" -> Puts(Put(s, e.i.t))
       [] e.op = "word" -> LET t == Token(s) IN Determined([st0 EXCEPT ![k] = t.s], e, [s |-> Seen(t.s), t |-> t.t, alt |-> <<>>])
       [] e.op = "ins" -> Puts(IF "plen" \in DOMAIN e.i.v THEN InsertNet(s, e.i.v) ELSE InsertAddr(s, e.i.v))
       [] e.op = "insu" -> Puts(InsertInt(s, e.i.v))
       [] e.op = "extu" ->
            LET x == ExtractInt(s, e.i.old)
            IN Determined([st0 EXCEPT ![k] = x.s], e, [s |-> Seen(x.s), v |-> x.v, alt |-> <<>>])
       [] e.op = "ext" ->
            LET x == IF e.i.kind \in Addrs THEN ExtractAddr(s, e.i.kind) ELSE ExtractNet(s, e.i.kind)
            IN Determined([st0 EXCEPT ![k] = x.s], e,
                          [s |-> Seen(x.s), v |-> IF e.i.kind \in Addrs THEN [b |-> x.r.b, s |-> x.r.s] ELSE x.r.net, alt |-> <<>>])
Init == TInit(Start)
Next == TNext(Step)
=============================================================================
