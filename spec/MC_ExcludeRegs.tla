----------------------------- MODULE MC_ExcludeRegs -----------------------------
(* Three iterator registers over the exclusions of subnetworks of one-byte networks. *)
EXTENDS ExcludeRegs, FiniteSets
CONSTANTS Regs, MinPlen
VARIABLES s, last
Nets == {Block(<<a>>, p) : a \in {160, 175}, p \in MinPlen..8}
Pairs == {<<x, y>> \in Nets \X Nets : ExcludeCode(x, y) = ErrNone}
None == First(Block(<<0>>, 8), Block(<<0>>, 8))
Init == s = [i \in 1..Regs |-> None] /\ last = <<"init", 1, 1>>
Did(op, i, j, t) == s' = t /\ last' = <<op, i, j>>
Next ==
  \E i, j \in 1..Regs :
    \/ i = j /\ \E p \in Pairs : Did("put", i, i, Assign(s, i, First(p[1], p[2]))) \/ Did("end", i, i, Assign(s, i, Past(p[1], p[2])))
    \/ i = j /\ ~AtEnd(s[i]) /\ Did("inc", i, i, Assign(s, i, Stepped(s[i])))
    \/ ~AtEnd(s[i]) /\ i # j /\ Did("pinc", i, j, Assign(Assign(s, i, Stepped(s[i])), j, s[i]))
    \/ Did("copy", i, j, Assign(s, j, s[i]))
    \/ Did("swap", i, j, SwapRegs(s, i, j))
(* ---- properties ---- *)
Held(n) == n.addr[1]..Broadcast(n)[1]
Blocks(it, from, to) == {ExcludedAt(it.x, it.y, k) : k \in from..to}
Cover(S) == UNION {Held(n) : n \in S}
(* the blocks before, at and after the iterator and the excluded network make up the network, without overlap *)
Partition == \A i \in 1..Regs : LET it == s[i] n == ExcludedCount(it.x, it.y) IN
  /\ it.k \in 1..(n + 1)
  /\ Cover(Blocks(it, 1, it.k - 1)) \cup Cover(Blocks(it, it.k, n)) \cup Held(it.y) = Held(it.x)
  /\ \A k, m \in 1..n : k # m => Held(ExcludedAt(it.x, it.y, k)) \cap Held(ExcludedAt(it.x, it.y, m)) = {}
  /\ \A k \in 1..n : Held(ExcludedAt(it.x, it.y, k)) \cap Held(it.y) = {}
(* as listed at once, the largest first *)
AsListed == \A i \in 1..Regs : LET it == s[i] l == Exclude(it.x, it.y) IN
  /\ Len(l) = ExcludedCount(it.x, it.y) /\ \A k \in 1..Len(l) : l[k] = ExcludedAt(it.x, it.y, k)
  /\ \A k \in 2..Len(l) : l[k].plen = l[k - 1].plen + 1
Frame == [][LET op == last'[1] i == last'[2] j == last'[3] IN
  /\ \A k \in 1..Regs : k \notin {i, j} => s'[k] = s[k]
  /\ op = "pinc" => s'[j] = s[i] /\ s'[i].k = s[i].k + 1
  /\ op = "copy" => s'[j] = s[i] /\ (i # j => s'[i] = s[i])
  /\ op = "swap" => s'[i] = s[j] /\ s'[j] = s[i]
  ]_<<s, last>>
Only == s
=============================================================================
