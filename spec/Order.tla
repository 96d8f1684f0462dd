--------------------------------- MODULE Order ---------------------------------
(* The total order of addresses and networks.  A value is [b, s, p]: bytes,      *)
(* scope text and prefix length, -1 for a plain address.                         *)
EXTENDS Words

CmpInt(i, j) == IF i < j THEN -1 ELSE IF i > j THEN 1 ELSE 0
(* the first of several comparisons that decides *)
Then(c, d) == IF c # 0 THEN c ELSE d
CmpVersion(x, y) == CmpInt(Len(x.b), Len(y.b))
(* version, then number, then scope id, then (for networks) netmask *)
Cmp(x, y) ==
  IF CmpVersion(x, y) # 0 THEN CmpVersion(x, y)
  ELSE Then(CmpW(x.b, y.b), Then(CmpLex(x.s, y.s), CmpInt(x.p, y.p)))

InOrder(seq) == \A i \in 2..Len(seq) : Cmp(seq[i - 1], seq[i]) <= 0
InStrictOrder(seq) == \A i \in 2..Len(seq) : Cmp(seq[i - 1], seq[i]) < 0
(* how many elements of seq equal x *)
Count(seq, x) == Cardinality({i \in 1..Len(seq) : seq[i] = x})
IsReordering(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Count(u, u[i]) = Count(v, u[i])
Elements(seq) == {seq[i] : i \in 1..Len(seq)}
=============================================================================
