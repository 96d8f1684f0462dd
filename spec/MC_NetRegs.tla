------------------------------- MODULE MC_NetRegs -------------------------------
(* Registers of networks of one-byte addresses, under every sequence of operations. *)
EXTENDS NetRegs
CONSTANTS Top, Regs
VARIABLES s, last
Nets == {Block(<<a>>, p) : a \in 0..Top, p \in 4..8}
Init == s = [i \in 1..Regs |-> DefNet(1)] /\ last = <<"init", 1, 1>>
Did(op, i, j, t) == s' = t /\ last' = <<op, i, j>>
Within(t) == \A k \in DOMAIN t : t[k] \in Nets
Next ==
  \/ \E i \in 1..Regs, a \in 0..Top, p \in 4..8, strict \in BOOLEAN : LET m == MakeNet(<<a>>, <<>>, p, strict) IN Within(<<m.net>>) /\ Did("put", i, i, Put(s, i, m.net))
  \/ \E i, j \in 1..Regs :
       \/ Did("copy", i, j, Put(s, i, s[j]))
       \/ Did("swap", i, j, Exchanged(s, i, j))
       \/ \E d \in 0..8 : LET t == Put(s, i, Supernet(s[j], d, -1)) IN Within(t) /\ Did("super", i, j, t)
       \/ \E p \in 0..9, w \in {"f", "l", "m"} : Did("sub", i, j, Derived(s, i, s[j], p, w))
       \/ \E o \in 1..Regs, k \in 0..3 : Did("rest", i, j, Remainder(s, i, s[j], s[o], k))
  \/ Did("reverse", 1, 1, Reversed(s)) \/ Did("rotate", 1, 1, Rotated(s)) \/ Did("sort", 1, 1, Sorted(s))
(* ---- properties ---- *)
Num(n) == n.addr[1]
End(n) == Broadcast(n)[1]
OneBlock == \A k \in 1..Regs : LET n == s[k] v == Facts(n) IN
  /\ n \in Nets /\ IsAligned(n.addr, n.plen) /\ v.net = n
  /\ v.host = NotW(v.mask) /\ AndW(n.addr, v.host) = Zero(1) /\ v.last = OrW(n.addr, v.host)
  /\ v.count[1] = End(n) - Num(n) + 1
  /\ \A a \in Num(n)..End(n) : HasAddr(n, <<a>>)
Shown(t) == {t[k] : k \in DOMAIN t}
Times(t, n) == Cardinality({k \in DOMAIN t : t[k] = n})
Moves == [][
  LET op == last'[1] i == last'[2] j == last'[3] IN
  /\ op \in {"swap", "reverse", "rotate", "sort"} => \A n \in Shown(s) \cup Shown(s') : Times(s, n) = Times(s', n)
  /\ op \in {"put", "copy", "super", "sub", "rest"} => \A k \in 1..Regs : k # i => s'[k] = s[k]
  /\ op = "swap" => Exchanged(s', i, j) = s
  /\ op = "copy" => s'[i] = s[j]
  /\ op = "super" => SubnetOf(s[j], s'[i]) \/ s'[i] = DefNet(1)
  /\ op = "sub" => s'[i] = s[i] \/ SubnetOf(s'[i], s[j])
  /\ op = "rest" => s'[i] = s[i] \/ SubnetOf(s'[i], s[j])
  /\ op = "sort" => \A k \in 2..Regs : Cmp(RegPoint(s'[k - 1]), RegPoint(s'[k])) <= 0
  ]_<<s, last>>
Only == s
=============================================================================
