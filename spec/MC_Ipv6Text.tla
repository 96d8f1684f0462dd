------------------------------ MODULE MC_Ipv6Text ------------------------------
(* Texts read one character at a time from several starting texts: what the   *)
(* IPv6 automaton accepts, and the value it gives, are those of the grammar   *)
(* stated declaratively.                                                      *)
EXTENDS Ipv6Text
CONSTANTS Alphabet, Starts, MaxExtra
VARIABLES s, t, n
vars == <<s, t, n>>
S6(k) == FoldLeft(LAMBDA acc, i : acc \o <<49, 58>>, <<>>, [i \in 1..k |-> i])
Starts0 == {<<>>}
StartsTail == {<<58, 58>>, S6(1) \o <<58>>, S6(5), S6(6), S6(7), <<58, 58>> \o S6(5), S6(3) \o <<58>> \o S6(2), S6(4) \o <<58>> \o S6(2)}
AlphaTwo == {49, 58}
AlphaTail == {49, 58, 46}
AlphaFour == {48, 58, 70, 103}
Init == n = 0 /\ t \in Starts /\ s = FoldLeft(V6Step, V6Start, t)
Next == /\ n < MaxExtra /\ n' = n + 1 /\ s.err = ErrNone
        /\ \E c \in Alphabet : s' = V6Step(s, c) /\ t' = Append(t, c)

(* ---- the grammar: lists of groups, at most one '::', a dotted tail ---- *)
RECURSIVE Pieces(_)
Pieces(u) == LET p == IndexOf(u, Colon)
             IN IF p = 0 THEN <<u>> ELSE <<SubSeq(u, 1, p - 1)>> \o Pieces(SubSeq(u, p + 1, Len(u)))
IsGroup(g) == Len(g) \in 1..4 /\ \A i \in 1..Len(g) : IsHex(g[i])
GroupBytes(g) == LET v == FoldLeft(LAMBDA a, c : 16 * a + HexVal(c), 0, g) IN <<v \div 256, v % 256>>
No == [ok |-> FALSE, bytes |-> <<>>]
(* a colon-separated list; only the last list of a text may end in a dotted tail *)
List(u, last) ==
  IF u = <<>> THEN [ok |-> TRUE, bytes |-> <<>>]
  ELSE LET ps == Pieces(u)
           k == Len(ps)
           tail == last /\ Has(ps[k], Dot)
           front == IF tail THEN SubSeq(ps, 1, k - 1) ELSE ps
           v4 == ParseV4(ps[k])
       IN IF (\E i \in 1..Len(front) : ~IsGroup(front[i])) \/ (tail /\ v4.code # ErrNone) THEN No
          ELSE [ok |-> TRUE, bytes |-> FoldLeft(LAMBDA a, g : a \o GroupBytes(g), <<>>, front) \o (IF tail THEN v4.bytes ELSE <<>>)]
Splits == {i \in 1..(Len(t) - 1) : t[i] = Colon /\ t[i + 1] = Colon}
Readings ==
  {r \in {List(t, TRUE).bytes} : List(t, TRUE).ok /\ Len(r) = 16}
  \cup UNION { LET l == List(SubSeq(t, 1, i - 1), FALSE)
                   r == List(SubSeq(t, i + 2, Len(t)), TRUE)
               IN IF l.ok /\ r.ok /\ Len(l.bytes) + Len(r.bytes) <= 14
                  THEN {l.bytes \o Zero(16 - Len(l.bytes) - Len(r.bytes)) \o r.bytes} ELSE {} : i \in Splits }

Result == ParseV6(t)
Unambiguous == Cardinality(Readings) <= 1
Complete == (Result.code = ErrNone) <=> Readings # {}
Value == Result.code = ErrNone => Result.bytes \in Readings
Default == Result.code # ErrNone => Result.bytes = Zero(16) /\ Result.scope = <<>>
Agrees == t # <<>> => LET e == V6End(s) IN e.code = Result.code /\ e.bytes = Result.bytes
Final == [][s.err # ErrNone => UNCHANGED s]_vars
(* canonical text of an accepted value is accepted with the same value *)
RoundTrip == Result.code = ErrNone =>
  \A f \in {FmtFull, FmtCompact, FmtCompressed} : ParseV6(FormatV6(Result.bytes, f)).bytes = Result.bytes
(* a scope id changes nothing but itself *)
ScopeOrthogonal == LET r == ParseV6(t \o <<Percent, 97>>)
                   IN t # <<>> => r.code = Result.code /\ r.bytes = Result.bytes /\ r.scope = (IF r.code = ErrNone THEN <<97>> ELSE <<>>)
=============================================================================
