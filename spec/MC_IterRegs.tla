------------------------------ MODULE MC_IterRegs ------------------------------
(* Registers of version-independent iterators: each over the blocks of one prefix  *)
(* length in one of two address spaces (one-byte and two-byte addresses), forward    *)
(* or reverse, under every sequence of operations.                                   *)
EXTENDS IterModel, FiniteSets, TLC
CONSTANTS Plen, Regs
VARIABLES s, last
Ks(W) == {IF i < 0 THEN NegW(ResizeW(<<-i>>, SBytes(W))) ELSE ResizeW(<<i>>, SBytes(W)) : i \in -1..(2 ^ Plen)}
Fits(it) == it.W \in {1, 2} /\ At(it) \in Ks(it.W)
Its == {[W |-> w, p |-> Plen, rev |-> v, k |-> IF v THEN IncW(k) ELSE k] : w \in {1, 2}, v \in BOOLEAN, k \in Ks(1) \cup Ks(2)}
All == {it \in Its : Len(it.k) = SBytes(it.W)}
Start == CHOOSE it \in All : it.W = 1 /\ ~it.rev /\ IsZero(it.k)
Init == s = [i \in 1..Regs |-> Start] /\ last = <<"init", 1, 1, 0>>
Put(i, it) == [s EXCEPT ![i] = it]
Word(W, d) == IF d < 0 THEN NegW(ResizeW(<<-d>>, SBytes(W))) ELSE ResizeW(<<d>>, SBytes(W))
By(it, d) == Moved(it, Word(it.W, d))
Turned(it) == [it EXCEPT !.rev = ~@]
Did(op, i, j, d, t) == (\A k \in 1..Regs : Fits(t[k])) /\ s' = t /\ last' = <<op, i, j, d>>
Next ==
  \E i, j \in 1..Regs :
    \/ Did("copy", i, j, 0, Put(j, s[i]))
    \/ Did("swap", i, j, 0, [s EXCEPT ![i] = s[j], ![j] = s[i]])
    \/ Did("turn", i, j, 0, Put(j, Turned(s[i])))
    \/ \E d \in -2..2 : Did("move", i, j, d, Put(j, By(s[i], d)))
    \/ \E w \in {1, 2} : Did("put", i, i, 0, Put(i, [Start EXCEPT !.W = w, !.k = Zero(SBytes(w))]))
(* ---- properties ---- *)
Same(x, y) == x.rev = y.rev
C(x, y) == Compared(x, y)
OrderIsTotal ==
  \A i, j \in 1..Regs : Same(s[i], s[j]) =>
    LET c == C(s[i], s[j]) b == C(s[j], s[i]) IN
    /\ Cardinality({f \in {"eq", "lt", "gt"} : c[f]}) = 1
    /\ c.lt = b.gt /\ c.gt = b.lt /\ c.eq = b.eq
    /\ c.eq <=> s[i] = s[j]
    /\ s[i].W = s[j].W => c.diff = NegW(b.diff)
    /\ s[i].W # s[j].W => c.diff = Zero(8) /\ IsZero(c.udiff) /\ IsZero(b.udiff)
OrderIsTransitive ==
  \A i, j, k \in 1..Regs : Same(s[i], s[j]) /\ Same(s[j], s[k]) /\ C(s[i], s[j]).lt /\ C(s[j], s[k]).lt => C(s[i], s[k]).lt
(* reversing the direction reverses the order *)
TurnReversesOrder ==
  \A i, j \in 1..Regs : Same(s[i], s[j]) => C(s[i], s[j]).lt = C(Turned(s[i]), Turned(s[j])).gt
DistanceCountsSteps ==
  \A i, j \in 1..Regs : Same(s[i], s[j]) /\ s[i].W = s[j].W =>
    \A d \in -2..2 : Fits(By(s[i], d)) => (By(s[i], d) = s[j] <=> C(s[j], s[i]).diff = SExt(Word(4, d), 8))
Frame == [][
  LET op == last'[1] i == last'[2] j == last'[3] d == last'[4] IN
  /\ \A k \in 1..Regs : k \notin {i, j} => s'[k] = s[k]
  /\ op \in {"copy", "turn", "move"} /\ i # j => s'[i] = s[i]
  /\ op = "copy" => s'[j] = s[i]
  /\ op = "swap" => s'[i] = s[j] /\ s'[j] = s[i]
  /\ op = "turn" => s'[j].k = s[i].k /\ s'[j].W = s[i].W
  /\ op = "move" => s'[j].rev = s[i].rev /\ s'[j].W = s[i].W /\ By(s'[j], -d) = s[i]
  ]_<<s, last>>
Only == s
=============================================================================
