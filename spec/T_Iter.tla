-------------------------------- MODULE T_Iter --------------------------------
(* Recorded histories of four iterator registers are histories of the specification. *)
EXTENDS IterModel, TraceBase
(* the state: four registers, each an iterator of the blocks of one prefix length in one address space *)
Fresh == [i \in 1..4 |-> [W |-> 4, p |-> 32, rev |-> FALSE, k |-> Zero(8)]]
Seen(s, i) == Designates(s[i].W, s[i].p, s[i])
Set(s, i, it) == [s EXCEPT ![i] = it]
Mixes(e) == "mixed" \in DOMAIN e.i
All(s) == [i \in 1..4 |-> Seen(s, i)]
Shows(s, e) == Determined(s, e, IF Mixes(e) THEN [all |-> All(s), alt |-> <<>>] ELSE [x |-> Seen(s, e.i.r), y |-> Seen(s, e.i.q), alt |-> <<>>])
Step(s, e) ==
  LET it == IF e.op = "seq" THEN Fresh[1] ELSE s[e.i.r]
      n == SBytes(it.W)
      d == IF "d" \in DOMAIN e.i THEN IF e.i.signed THEN SExt(e.i.d, n) ELSE UExt(e.i.d, n) ELSE Zero(n)
      one == OneW(n)
  IN
  CASE e.op = "seq" ->                                \* the four ends of a sequence, in registers 1 to 4
         LET W == Len(e.i.n.addr)
             p == IF e.i.hosts THEN 8 * W ELSE e.i.p
             b == IF e.i.hosts THEN HostsBegin(W, e.i.n) ELSE Begin(W, e.i.n, p)
             z == IF e.i.hosts THEN HostsEnd(W, e.i.n) ELSE End(W, e.i.n, p)
             s2 == << [W |-> W, p |-> p, rev |-> FALSE, k |-> b], [W |-> W, p |-> p, rev |-> FALSE, k |-> z], [W |-> W, p |-> p, rev |-> TRUE, k |-> z], [W |-> W, p |-> p, rev |-> TRUE, k |-> b] >>
         IN Determined(s2, e, [b |-> Seen(s2, 1), e |-> Seen(s2, 2), rb |-> Seen(s2, 3), re |-> Seen(s2, 4), alt |-> <<>>])
    [] e.op = "start" ->                              \* an iterator made from an address
         Shows(Set(s, e.i.r, [it EXCEPT !.rev = FALSE, !.k = UExt(e.i.a, n)]), e)
    [] e.op = "put" ->                                \* one end of a sequence of either version
         LET W == Len(e.i.n.addr)
             p == IF e.i.hosts THEN 8 * W ELSE e.i.p
             b == IF e.i.hosts THEN HostsBegin(W, e.i.n) ELSE Begin(W, e.i.n, p)
             z == IF e.i.hosts THEN HostsEnd(W, e.i.n) ELSE End(W, e.i.n, p)
         IN Shows(Set(s, e.i.r, [W |-> W, p |-> p, rev |-> e.i.rev, k |-> IF e.i.last THEN z ELSE b]), e)
    [] e.op = "swap" -> Shows(Set(Set(s, e.i.r, s[e.i.q]), e.i.q, it), e)
    [] e.op = "rev" -> Shows([i \in 1..4 |-> s[5 - i]], e)
    [] e.op \in {"add", "nplus"} -> Shows(Set(s, e.i.q, Moved(it, d)), e)
    [] e.op = "sub" -> Shows(Set(s, e.i.q, Moved(it, NegW(d))), e)
    [] e.op = "adde" -> Shows(Set(s, e.i.r, Moved(it, d)), e)
    [] e.op = "sube" -> Shows(Set(s, e.i.r, Moved(it, NegW(d))), e)
    [] e.op = "inc" -> Shows(Set(s, e.i.r, Moved(it, one)), e)
    [] e.op = "dec" -> Shows(Set(s, e.i.r, Moved(it, NegW(one))), e)
    [] e.op = "pinc" -> Shows(Set(Set(s, e.i.r, Moved(it, one)), e.i.q, it), e)
    [] e.op = "pdec" -> Shows(Set(Set(s, e.i.r, Moved(it, NegW(one))), e.i.q, it), e)
    [] e.op = "copy" -> Shows(Set(s, e.i.q, it), e)
    [] e.op = "turn" -> Shows(Set(s, e.i.q, [it EXCEPT !.rev = ~@]), e)      \* to a reverse iterator, or to its base
    [] e.op = "at" -> Determined(s, e, [x |-> ElementAt(it.W, it.p, At(Moved(it, d))), alt |-> <<>>])
    [] e.op = "cmp" -> LET c == Compared(it, s[e.i.q]) IN
         Determined(s, e, [eq |-> c.eq, lt |-> c.lt, gt |-> c.gt, diff |-> c.diff, udiff |-> ResizeW(c.udiff, IF Mixes(e) THEN 16 ELSE it.W), alt |-> <<>>])
Init == TInit(Fresh)
Next == TNext(Step)
=============================================================================
