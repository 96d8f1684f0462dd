-------------------------------- MODULE MC_AnyIp --------------------------------
(* Two registers of addresses and two of networks of either version, under every   *)
(* sequence of assignments, swaps, parses, scope changes and constructions.          *)
EXTENDS AnyIp
CONSTANTS ManyValues
VARIABLES s, last
Sc == <<97>>
Texts == { <<49, 46, 50, 46, 51, 46, 52>>,                              \* 1.2.3.4
           <<58, 58, 49>>, <<58, 58, 49, 37, 97>>,                       \* ::1  ::1%a
           <<58, 58, 49, 46, 50, 46, 51, 46, 52>>,                       \* ::1.2.3.4
           <<49, 46, 50, 46, 51>>, <<58>>, <<>> }
NetTexts == { <<49, 46, 48, 46, 48, 46, 48, 47, 56>>,                    \* 1.0.0.0/8
              <<49, 46, 50, 46, 51, 46, 52, 47, 56>>,                    \* 1.2.3.4/8
              <<58, 58, 47, 48>>, <<58, 58, 49, 47, 48>>,                 \* ::/0  ::1/0
              <<58, 58, 47, 51, 51>>, <<49, 46, 48, 46, 48, 46, 48, 47, 51, 51>>, <<47>> } \* ::/33 1.0.0.0/33 /
Addrs == { [b |-> <<1, 2, 3, 4>>, s |-> <<>>], [b |-> Zero(12) \o <<1, 2, 3, 4>>, s |-> <<>>], [b |-> OneW(16), s |-> Sc] }
         \cup IF ManyValues THEN { [b |-> Ones(4), s |-> <<>>], [b |-> Ones(16), s |-> <<>>], [b |-> <<32, 2>> \o Zero(14), s |-> <<>>] } ELSE {}
PrefixLengths == IF ManyValues THEN {0, 8, 32, 33, 128, 129} ELSE {0, 32, 33}
Two == [a |-> [i \in 1..2 |-> DefAddr], n |-> [i \in 1..2 |-> DefAnyNet]]
Init == s = Two /\ last = [op |-> "init", code |-> ErrNone, i |-> 1]
Did(op, code, i, t) == s' = t /\ last' = [op |-> op, code |-> code, i |-> i]
Next ==
  \E i \in 1..2 :
    \/ \E v \in Addrs : Did("puta", ErrNone, i, SetA(s, i, v))
    \/ \E t \in Texts : LET p == ParseInto(t) IN Did("parsea", p.code, i, SetA(s, i, p.r))
    \/ \E t \in NetTexts, strict \in BOOLEAN : LET p == ParseAnyNet(t, strict) IN Did("parsen", p.code, i, SetN(s, i, p.net))
    \/ Did("scope", SetScopeCode(s.a[i], Sc), i, SetA(s, i, SetScope(s.a[i], Sc)))
    \/ Did("scope", SetScopeCode(s.a[i], <<>>), i, SetA(s, i, SetScope(s.a[i], <<>>)))
    \/ \E p \in PrefixLengths, strict \in BOOLEAN : LET r == s.a[3 - i] m == MakeNet(r.b, r.s, p, strict) IN Did("make", m.code, i, SetN(s, i, m.net))
    \/ Did("copya", ErrNone, i, SetA(s, i, s.a[3 - i]))
    \/ Did("copyn", ErrNone, i, SetN(s, i, s.n[3 - i]))
    \/ Did("swapa", ErrNone, i, SwapA(s, 1, 2))
    \/ Did("swapn", ErrNone, i, SwapN(s, 1, 2))
(* the histories matter only through the last step *)
Small == s
(* ---- properties ---- *)
WellFormed == \A i \in 1..2 :
  /\ Len(s.a[i].b) \in {4, 16} /\ (Len(s.a[i].b) = 4 => s.a[i].s = <<>>)
  /\ Len(s.n[i].addr) \in {4, 16} /\ (Len(s.n[i].addr) = 4 => s.n[i].scope = <<>>)
  /\ s.n[i].plen \in 0..(8 * Len(s.n[i].addr)) /\ IsAligned(s.n[i].addr, s.n[i].plen)
(* exactly one of the two concrete values is there, and it is the value held *)
OneVersion == \A i \in 1..2 :
  LET v == AddrView(s.a[i]) w == NetView(s.n[i])
  IN /\ v.is4 # v.is6 /\ Len(v.v4) + Len(v.v6) = 1 /\ (v.v4 \o v.v6)[1] = s.a[i] /\ v.size = Len(v.b)
     /\ w.is4 # w.is6 /\ Len(w.v4) + Len(w.v6) = 1 /\ (w.v4 \o w.v6)[1] = s.n[i] /\ w.version = v.version + (w.version - v.version)
     /\ (v.is4 => v.mapped = <<>> /\ v.sixtofour = <<>> /\ v.server = <<>> /\ ~v.cats.site_local)
     /\ ResizeW(v.u128, v.size) = v.b
(* values of different versions are unrelated, and IPv4 comes first *)
Mixed ==
  LET x == s.n[1] y == s.n[2]
  IN /\ Len(x.addr) # Len(y.addr) =>
          /\ ~AnyOverlaps(x, y) /\ ~AnySubnetOf(x, y) /\ ~AnySubnetOf(y, x) /\ AnyExcludeCode(x, y) = ErrVersion /\ AnyExclude(x, y) = <<>>
          /\ (Cmp(NetPoint(x), NetPoint(y)) < 0 <=> Len(x.addr) = 4)
     /\ \A i, j \in 1..2 : AnyHas(s.n[i], s.a[j]) => Len(s.n[i].addr) = Len(s.a[j].b)
     /\ Cmp(AsPoint(s.a[1]), AsPoint(s.a[2])) = 0 <=> s.a[1] = s.a[2]
     /\ Cmp(NetPoint(x), NetPoint(y)) = 0 <=> x = y
(* printing and parsing again gives the object back, in every format, so a text of one version never becomes the other *)
RoundTrip == \A i \in 1..2 :
  LET v == AddrView(s.a[i]) w == NetView(s.n[i])
  IN /\ \A t \in {v.full, v.compact, v.text} : ParseInto(t) = [code |-> ErrNone, r |-> s.a[i]]
     /\ \A t \in {w.full, w.compact, w.text} : ParseAnyNet(t, TRUE) = [code |-> ErrNone, net |-> s.n[i]]
(* an operation changes the registers it names, and only those *)
Frame == [][
  LET b == s c == s' o == last'.op i == last'.i j == 3 - last'.i
  IN /\ o \in {"puta", "parsea", "scope", "copya", "swapa"} => c.n = b.n
     /\ o \in {"parsen", "copyn", "swapn", "make"} => c.a = b.a
     /\ o \in {"puta", "parsea", "scope", "copya"} => c.a[j] = b.a[j]
     /\ o \in {"parsen", "make", "copyn"} => c.n[j] = b.n[j]
     /\ o = "swapa" => c.a = <<b.a[2], b.a[1]>>
     /\ o = "swapn" => c.n = <<b.n[2], b.n[1]>>
     /\ o = "scope" => c.a[i].b = b.a[i].b /\ (last'.code # ErrNone \/ Len(b.a[i].b) = 4 => c = b)
  ]_<<s, last>>
Failures == [][
  LET o == last'.op i == last'.i bad == last'.code # ErrNone
  IN /\ o = "parsea" /\ bad => s'.a[i] = DefAddr
     /\ o = "parsen" /\ bad => s'.n[i] = DefAnyNet
     /\ o = "make" /\ bad => s'.n[i] = DefNet(Len(s.a[3 - i].b))
  ]_<<s, last>>
=============================================================================
