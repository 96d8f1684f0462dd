-------------------------------- MODULE T_C25 --------------------------------
(***************************************************************************)
(* What constant evaluation observed (v: integers, a: addresses with their *)
(* scope ids, in the order the operation yields them), and whether an      *)
(* expression is a constant expression at all.                             *)
(***************************************************************************)
EXTENDS Containers, NetAlg, Order, U128, Scope, TraceBase
I == INSTANCE IterModel

B2(x) == IF x THEN 1 ELSE 0
Bits2(s) == TLCEval([k \in 1..Len(s) |-> B2(s[k])])
A1(b) == [b |-> b, s |-> <<>>]
AS(b, s) == [b |-> b, s |-> s]
NA(n) == AS(n.addr, n.scope)
Seen(v, a) == [v |-> v, a |-> a, alt |-> <<>>]
Nets(ns) == [v |-> TLCEval([k \in 1..Len(ns) |-> ns[k].plen]), a |-> TLCEval([k \in 1..Len(ns) |-> NA(ns[k])])]
(* the networks and addresses of a sequence, n of them at most, from either end *)
Firsts(size, n, at(_)) == LET c == IF FitsNat(size) /\ ToNat(size) < n THEN ToNat(size) ELSE n
                          IN TLCEval([k \in 1..c |-> at(NatW(k - 1, Len(size)))])
Lasts(size, n, at(_)) == LET c == IF FitsNat(size) /\ ToNat(size) < n THEN ToNat(size) ELSE n
                         IN TLCEval([k \in 1..c |-> at(SubW(size, NatW(k, Len(size))))])

FromBytesOf(b) == TLCEval([k \in 1..Len(b) |-> IF k <= 3 THEN b[k] ELSE 0])
NumbersOf(k, u) == LET d == Decoded(k, u) IN IF d.code = ErrNone THEN d.text ELSE Append(d.text, -1)
AddrOf(i) ==
  LET u == IF i.view THEN i.u ELSE CutAtNul(i.k, i.u)  whole == ~i.view
      r == IF i.f = "v4" THEN EncV4(i.k, u, whole) ELSE IF i.f = "v6" THEN EncV6(i.k, u, whole) ELSE EncAny(i.k, u, whole)
  IN [code |-> r.code, a |-> AS(r.b, r.s)]
NetOf(i) ==
  LET u == IF i.view THEN i.u ELSE CutAtNul(i.k, i.u)  whole == ~i.view
  IN IF i.f = "n4" THEN EncNet(i.k, 4, u, i.strict, whole) ELSE IF i.f = "n6" THEN EncNet(i.k, 16, u, i.strict, whole) ELSE EncNetAny(i.k, u, i.strict, whole)
(* a scope id set on an address: the code, and the address afterwards *)
ScopeSet(i) ==
  LET u == IF i.view THEN i.u ELSE CutAtNul(i.k, i.u)
      d == Decoded(i.k, u)
      r == IF ~i.view /\ d.code # ErrNone THEN [code |-> d.code, s |-> i.x.s] ELSE EncScope(i.k, u, i.x.s)
  IN IF Len(i.x.b) = 4 THEN [code |-> ErrNone, a |-> i.x] ELSE [code |-> r.code, a |-> AS(i.x.b, r.s)]

Cats(r) == Bits2(<<r.multicast, r.private, r.global, r.reserved, r.loopback, r.link_local, r.unspecified>>)
Rel(x, y) == Bits2(<<Overlaps(x, y), SubnetOf(x, y), SubnetOf(y, x), HasAddr(x, y.addr), HasAddr(x, Broadcast(y))>>)
Six(c) == Bits2(<<c < 0, c <= 0, c > 0, c >= 0, c = 0, c # 0>>)
Both(a, k) == LET d == DivMod(a, k) IN AddW(a, k) \o SubW(a, k) \o MulW(a, k) \o d.q \o d.r \o AndW(a, k) \o OrW(a, k) \o XorW(a, k)
Flat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
V4V6(b) == IF Len(b) = 4 THEN 4 ELSE 6

(* an iterator over a sequence: what is seen of the element it designates, and its steps *)
IterSees(W, p, hosts, it) ==
  LET x == I!Designates(W, p, it) IN [v |-> IF hosts THEN <<>> ELSE <<p>>, a |-> <<A1(x.addr)>>]
Then2(x, y) == [v |-> x.v \o y.v, a |-> x.a \o y.a]
IterStep(W, p, hosts, s, sp) ==
  LET n == I!SBytes(W)
      d == IF sp.signed THEN I!SExt(sp.d, n) ELSE I!UExt(sp.d, n)
      sees(it) == IterSees(W, p, hosts, it)
      it == s.it
      to == CASE sp.op \in {0, 2} -> I!Moved(it, OneW(n))
              [] sp.op \in {1, 3} -> I!Moved(it, NegW(OneW(n)))
              [] sp.op \in {4, 6, 7} -> I!Moved(it, d)
              [] sp.op \in {5, 8} -> I!Moved(it, NegW(d))
              [] sp.op = 9 -> it
      early == CASE sp.op \in {2, 3} -> sees(it)                    \* the old value of a post-increment
                 [] sp.op = 9 -> sees(I!Moved(it, d))
                 [] OTHER -> [v |-> <<>>, a |-> <<>>]
  IN [it |-> to, seen |-> Then2(s.seen, Then2(early, sees(to)))]
IterCmp(W, p, it, e) ==
  LET far == I!Distance(e, it)                                       \* it - e
      lt == I!SNeg(far)  eq == it.k = e.k
  IN Bits2(<<lt, lt \/ eq, ~lt /\ ~eq, ~lt, eq, ~eq>>) \o I!Diff64(W, far) \o I!UDiff(W, p, far)
IterSeen(i) ==
  LET W == Len(i.n.addr)  p == i.p
      b == IF i.hosts THEN I!HostsBegin(W, i.n) ELSE I!Begin(W, i.n, p)
      z == IF i.hosts THEN I!HostsEnd(W, i.n) ELSE I!End(W, i.n, p)
      sees(k) == IterSees(W, p, i.hosts, [rev |-> FALSE, k |-> k])
      first == [rev |-> i.rev, k |-> IF i.rev THEN z ELSE b]
      last == [rev |-> i.rev, k |-> IF i.rev THEN b ELSE z]
      at == sees(AddW(b, I!UExt(i.at, I!SBytes(W))))
      start == [it |-> first, seen |-> IterSees(W, p, i.hosts, first)]
      done == FoldLeft(LAMBDA s, sp : IterStep(W, p, i.hosts, s, sp), start, i.steps)
      whole == Then2(Then2(Then2(sees(b), sees(DecW(z))), Then2(at, at)), done.seen)
  IN Seen(<<B2(b = z)>> \o ResizeW(SubW(z, b), W) \o <<1>> \o whole.v \o <<1, 1, 1>>
          \o IterCmp(W, p, done.it, first) \o IterCmp(W, p, done.it, last), whole.a)

Expected(e) ==
  LET i == e.i IN
  CASE e.op = "parse" -> LET r == AddrOf(i) IN Seen(<<r.code>>, <<r.a>>)
    [] e.op = "pnet" -> LET r == NetOf(i) IN Seen(<<r.code, r.net.plen>>, <<NA(r.net)>>)
    [] e.op = "literal" -> Seen(<<>>, <<AddrOf(i).a>>)
    [] e.op = "literalnet" -> LET r == NetOf(i) IN Seen(<<r.net.plen>>, <<NA(r.net)>>)
    [] e.op = "cats" -> LET r == AddrCategories(i.x.b) IN Seen(Cats(r) \o <<B2(r.site_local)>> \o Cats(r), <<>>)
    [] e.op = "ints" -> LET b == i.x.b IN Seen(b \o b \o <<V4V6(b), 1>> \o b \o b, <<A1(b), A1(b), A1(FromBytesOf(b)), A1(b), A1(b)>>)
    [] e.op = "embed" ->
         LET b == i.x.b  m == Mapped4(b)  s == SixToFour(b)  t == TeredoServer(b)
         IN Seen(Bits2(<<m # <<>>, s # <<>>, t # <<>>>>),
                 (IF m = <<>> THEN <<>> ELSE <<A1(m)>>) \o (IF s = <<>> THEN <<>> ELSE <<A1(s)>>)
                 \o (IF t = <<>> THEN <<>> ELSE <<A1(t), A1(TeredoClient(b))>>))
    [] e.op = "any" ->
         LET b == i.x.b  four == Len(b) = 4
             m == Mapped4(b)  s == SixToFour(b)  t == TeredoServer(b)
             v == IF four THEN <<>> ELSE ScopeValue(i.x.s)
             same == IF four THEN <<A1(b), A1(b), A1(b), i.x>> ELSE <<A1(b), A1(b), A1(b), i.x>>
         IN Seen(<<V4V6(b), B2(four), B2(~four), Len(b), B2(four), B2(~four), 1>> \o b \o Bits2(<<m # <<>>, s # <<>>, t # <<>>>>)
                 \o Bits2(<<i.x.s # <<>>, v # <<>>>>) \o (IF v = <<>> THEN Zero(4) ELSE v) \o b \o b,
                 (IF m = <<>> THEN <<>> ELSE <<A1(m)>>) \o (IF s = <<>> THEN <<>> ELSE <<A1(s)>>)
                 \o (IF t = <<>> THEN <<>> ELSE <<A1(t), A1(TeredoClient(b))>>) \o <<A1(b)>> \o same)
    [] e.op = "setscope" -> LET r == ScopeSet(i) IN Seen(<<r.code>>, <<r.a>>)
    [] e.op = "scopes" -> Seen(Six(CmpText(i.x.s, i.y.s)), <<>>)
    [] e.op = "iter" -> IterSeen(i)
    [] e.op = "anynet" -> LET four == Len(i.n.addr) = 4 IN Seen(Bits2(<<four, ~four, four, ~four>>) \o <<i.n.plen>>, <<NA(i.n)>>)
    [] e.op = "opt" -> LET x == i.x  y == i.y IN Seen(<<0, 0, 0, 1, 1, B2(Len(x.b) = 4), 0, 1, 0, 0>>, <<x, x, y, x, x, y, x, y, x, x>>)
    [] e.op = "bytes" ->
         LET x == i.x  n == Len(x)
             put == Put(Put(Put(x, i.k, i.v), 0, 1), n - 1, 2)
             fin == Put(put, i.k, XorW(<<i.v>>, <<254>>)[1])
         IN Seen(<<n, n, 0, x[1], x[n], x[i.k + 1], x[i.k + 1], x[i.k + 1], 1>> \o x \o Backwards(x) \o <<1>> \o Six(CmpW(x, i.y)) \o <<i.v, i.v, 1>> \o fin, <<>>)
    [] e.op = "more" ->
         LET a == i.a  b == i.b  d == DivMod(a, b)
             low(n) == SubSeq(a, 17 - n, 16)
         IN Seen(SubW(a, b) \o d.q \o d.r \o AndW(a, b) \o OrW(a, b) \o XorW(a, b) \o a \o IncW(a) \o IncW(a) \o a \o a
                 \o Bits2(<<IsZero(a), ~IsZero(a) /\ ~IsZero(b), ~IsZero(a) \/ ~IsZero(b)>>) \o b \o a \o a \o b \o a \o <<1>>
                 \o low(8) \o low(8) \o low(8) \o low(8) \o low(4) \o low(4) \o low(2) \o low(2) \o low(1) \o low(1) \o low(1)
                 \o a, <<>>)
    [] e.op = "limits" -> Seen(Ones(16) \o Zero(128) \o <<1, 1, 0, 1, 1, 1, 128, 38, 2, 0, 0, 0, 0>> \o i.a \o <<0>>, <<>>)
    [] e.op = "cmp" -> Seen(Six(Cmp(i.x, i.y)) \o <<1, 1, 1, 1, 1>>, <<>>)
    [] e.op = "scope" -> LET v == ScopeValue(i.x.s) w == IF v = <<>> THEN Zero(4) ELSE v IN Seen(Bits2(<<i.x.s # <<>>, i.x.s # <<>>, v # <<>>>>) \o w \o w, <<>>)
    [] e.op = "from" -> LET r == MakeNet(i.x.b, i.x.s, i.p, i.strict) IN Seen(<<r.code, r.net.plen>>, <<NA(r.net)>>)
    [] e.op = "attrs" ->
         LET n == i.n
         IN Seen(<<n.plen, V4V6(n.addr), Len(n.addr)>> \o AddrCount(n) \o <<1>>, <<NA(n), A1(Broadcast(n)), A1(NetMask(n)), A1(HostMask(n))>>)
    [] e.op = "ncats" -> LET r == NetCategories(i.n) IN Seen(Cats(r) \o <<B2(r.site_local)>>, <<>>)
    [] e.op = "rel" -> Seen(Rel(i.n, i.o) \o Rel(i.n, i.o), <<>>)
    [] e.op = "super" -> LET s == Supernet(i.n, i.diff, i.new) IN Seen(<<SupernetCode(i.n, i.diff, i.new), s.plen>>, <<NA(s)>>)
    [] e.op = "subs" ->
         LET n == i.n  c == SubnetsCode(n, i.diff, i.new)  p == SubnetsPlen(n, i.diff, i.new)
             size == SubnetsSize(n, p)
             at(idx) == SubnetAt(n, p, idx)
             (* 2^width subnets: the size is 0 modulo 2^width *)
             all == IF IsZero(size) THEN 4 ELSE 0
             f == IF all = 0 THEN Firsts(size, 4, at) ELSE TLCEval([k \in 1..4 |-> at(NatW(k - 1, Len(size)))])
             b == IF all = 0 THEN Lasts(size, 4, at) ELSE TLCEval([k \in 1..4 |-> at(SubW(size, NatW(k, Len(size))))])
             r == Nets(<<at(Zero(Len(size))), at(LastIndex(n, p))>> \o f \o b)
         IN IF c # ErrNone THEN Seen(<<c>>, <<>>) ELSE Seen(<<c>> \o size \o r.v, r.a)
    [] e.op = "excl" ->
         LET c == ExcludeCode(i.n, i.o)  all == Exclude(i.n, i.o)
             r == Nets(SubSeq(all, 1, IF Len(all) < 20 THEN Len(all) ELSE 20))
         IN IF c # ErrNone THEN Seen(<<c>>, <<>>) ELSE Seen(<<c, IF Len(all) = 0 THEN 1 ELSE 0, 1>> \o r.v, r.a)
    [] e.op = "hosts" ->
         LET n == i.n  size == HostsCount(n)
             at(idx) == A1(HostAt(n, idx))
             last == at(DecW(size))
             whole == IF FitsNat(size) /\ ToNat(size) <= 1000000 THEN ToNat(size) ELSE -1
         IN Seen(size \o <<whole>>, <<at(Zero(Len(size))), last>> \o Firsts(size, 6, at) \o Lasts(size, 6, at) \o <<last>>)
    [] e.op = "arith" ->
         LET a == i.a  b == i.b  d == DivMod(a, b)
             c == CmpW(a, b)
         IN Seen(AddW(a, b) \o SubW(a, b) \o MulW(a, b) \o AndW(a, b) \o OrW(a, b) \o XorW(a, b) \o NegW(a) \o NotW(a) \o d.q \o d.r
                 \o IncW(a) \o DecW(a) \o AddW(a, b) \o MulW(a, b) \o Bits2(<<c = 0, c < 0, c > 0, c <= 0, c >= 0, c # 0>>), <<>>)
    [] e.op = "shift" ->
         LET x == ShiftLeft(i.a, i.n)  y == ShiftRight(i.a, i.n) IN Seen(x \o y \o x \o y, <<>>)
    [] e.op = "mixed" ->
         LET a == i.a  k == Extend(i.k, i.signed, 16)  c == CmpW(a, k)
         IN Seen(Both(a, k) \o Both(k, a) \o Six(c) \o Six(-c) \o k \o <<1, B2(~IsZero(a))>>, <<>>)
    [] e.op = "digits" ->
         LET r == Parse(NumbersOf(i.k, CutAtNul(i.k, i.u)), i.base, 16)
         IN Seen(<<B2(r.ok)>> \o (IF r.ok THEN r.v ELSE <<>>), <<>>)
    [] e.op = "fixed" ->
         LET x == FixedNew(i.k, i.u, Len(i.u))  y == FixedNew(i.k2, i.u2, Len(i.u2))
             c == CmpText(x.text, y.text)
         IN Seen(<<x.code, y.code, Len(x.text), B2(x.text = <<>>)>> \o Six(c) \o <<Final(x.text), First(x.text), 1, B2(c < 0), 1, 1>>
                 \o x.text \o Flat([j \in 1..Len(x.text) |-> <<x.text[j], x.text[j], x.text[j]>>]) \o Backwards(x.text) \o <<1, 1, 1, 1, 1>>, <<>>)
    [] e.op = "none" -> [alt |-> <<>>]                  \* needs a later standard
    [] e.op = "accept" ->
         [accepted |-> CASE i.f \in {"v4", "v6", "any"} -> AddrOf(i).code = ErrNone
                         [] i.f \in {"n4", "n6", "nany"} -> NetOf(i).code = ErrNone
                         [] i.f = "from" -> MakeNet(i.x.b, i.x.s, i.p, i.strict).code = ErrNone
                         [] i.f = "super" -> SupernetCode(i.n, i.diff, i.new) = ErrNone
                         [] i.f = "subs" -> SubnetsCode(i.n, i.diff, i.new) = ErrNone
                         [] i.f = "excl" -> ExcludeCode(i.n, i.o) = ErrNone
                         [] i.f = "scope" -> ScopeSet(i).code = ErrNone
                         [] i.f = "at" -> i.at < i.size,
          alt |-> <<>>]
Step(s, e) == Determined(s, e, Expected(e))
Init == TInit(0)
Next == TNext(Step)
=============================================================================
