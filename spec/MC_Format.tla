------------------------------- MODULE MC_Format -------------------------------
(* Formatting, for every pattern of a few group values: the laws of canonical   *)
(* text.  A state is an address; groups are set one after the other.            *)
EXTENDS NetText
CONSTANT Values
VARIABLES b, i
FewValues == {<<0, 0>>, <<0, 10>>, <<18, 0>>}
ManyValues == {<<0, 0>>, <<0, 10>>, <<1, 2>>, <<18, 0>>}
Init == b = Zero(16) /\ i = 0
Next == i < 8 /\ i' = i + 1 /\ \E v \in Values : b' = SubSeq(b, 1, 2 * i) \o v \o SubSeq(b, 2 * i + 3, 16)
Fmts == {FmtFull, FmtCompact, FmtCompressed}
RoundTrip == \A f \in Fmts : LET r == ParseV6(FormatV6(b, f)) IN r.code = ErrNone /\ r.bytes = b
(* every way of replacing one run of at least two zero groups by '::' *)
Runs == {<<p, k>> \in (1..7) \X (2..8) : p + k <= 9 /\ \A j \in p..(p + k - 1) : b[2 * j - 1] = 0 /\ b[2 * j] = 0}
Short(j) == StripZeros(Group(b, j))
WithRun(r) == JoinColon([j \in 1..(r[1] - 1) |-> Short(j)]) \o <<Colon, Colon>> \o JoinColon([j \in 1..(9 - r[1] - r[2]) |-> Short(j + r[1] + r[2] - 1)])
Texts == {FormatV6(b, FmtCompact)} \cup {WithRun(r) : r \in Runs}
(* a longest run is replaced (which need not give the shortest text: a run at either end saves less) *)
IsOneOfThem == FormatV6(b, FmtCompressed) \in Texts
Leftmost == \A r \in Runs : (\A q \in Runs : q[2] < r[2] \/ (q[2] = r[2] /\ q[1] >= r[1])) => FormatV6(b, FmtCompressed) = WithRun(r)
FullLength == Len(FormatV6(b, FmtFull)) = 39
CompactHasNoLeadingZeros == LET t == FormatV6(b, FmtCompact) IN \A j \in 1..(Len(t) - 1) : t[j] = 48 /\ (j = 1 \/ t[j - 1] = Colon) => t[j + 1] = Colon
ReverseIsReverse == LET r == ReverseV6(b) IN \A k \in 1..16 : r[4 * k - 3] = HexDigit(b[17 - k] % 16) /\ r[4 * k - 1] = HexDigit(b[17 - k] \div 16)
=============================================================================
