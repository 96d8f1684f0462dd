------------------------------- MODULE MC_Order -------------------------------
(* Order laws over every pair and triple of small values, and insertion into a  *)
(* sorted sequence as the only reachable way to build one.                      *)
EXTENDS Order
CONSTANTS TopByte, MaxLen
VARIABLES x, y, z, seq
Scopes == {<<>>, <<48>>, <<48, 49>>, <<49>>, <<97>>}
Values == [b : {<<i>> : i \in {0, 1, TopByte}}, s : {<<>>}, p : {-1, 0, 3}]
          \cup [b : {<<i, j>> : i \in {0, TopByte}, j \in {0, 1, TopByte}}, s : Scopes, p : {-1, 0, 3}]
Small == {v \in Values : v.p = -1 /\ v.s \in {<<>>, <<48, 49>>, <<49>>} /\ v.b[Len(v.b)] # 1}
Init == x \in Values /\ y = x /\ z = x /\ seq = <<>>
Triples == y = x /\ z = x /\ seq = <<>> /\ y' \in Values /\ z' \in Values /\ UNCHANGED <<x, seq>>
Insert(v) == LET k == Cardinality({i \in 1..Len(seq) : Cmp(seq[i], v) <= 0})
             IN SubSeq(seq, 1, k) \o <<v>> \o SubSeq(seq, k + 1, Len(seq))
Grow == /\ x = y /\ y = z /\ Len(seq) < MaxLen
        /\ x = CHOOSE v \in Values : TRUE
        /\ \E v \in Small : seq' = Insert(v)
        /\ UNCHANGED <<x, y, z>>
Next == Triples \/ Grow
Total == Cmp(x, y) \in {-1, 0, 1} /\ Cmp(x, y) = -Cmp(y, x)
EqualIsIdentity == Cmp(x, y) = 0 <=> x = y
Transitive == Cmp(x, y) <= 0 /\ Cmp(y, z) <= 0 => Cmp(x, z) <= 0
VersionsFirst == Len(x.b) < Len(y.b) => Cmp(x, y) < 0
NumbersSecond == Len(x.b) = Len(y.b) /\ LtW(x.b, y.b) => Cmp(x, y) < 0
Sorted == InOrder(seq)
=============================================================================
