------------------------------- MODULE MC_NetText -------------------------------
(* Network texts read one character at a time from several starting texts, and   *)
(* every mask text: what is accepted, and what it means, stated declaratively.   *)
EXTENDS NetText
CONSTANTS Alphabet, Octets, Starts, MaxExtra
VARIABLES t, n
Addr1 == <<49, 46, 50, 46, 51, 46, 48>>                      \* 1.2.3.0
Addr2 == <<49, 50, 56, 46, 48, 46, 48, 46, 48>>              \* 128.0.0.0
AddrHost == <<49, 46, 50, 46, 51, 46, 49>>                   \* 1.2.3.1
Six1 == <<58, 58>>
Six2 == <<102, 101, 56, 48, 58, 58, 37, 97>>                 \* fe80::%a
SixHost == <<58, 58, 49>>                                    \* ::1
AllStarts == {Addr1, Addr2, AddrHost, Six1, Six2, SixHost, <<>>}
MaskStarts == {Addr2 \o <<Slash>>}
None == {}
SomeOctets == {0, 255, 254, 128, 127, 1}
ManyOctets == SomeOctets \cup {240, 15, 252, 3}
Digits8 == {47, 48, 49, 50, 51, 54, 97}
Init == n = 0 /\ t \in Starts
Next == n < MaxExtra /\ n' = n + 1
        /\ \/ \E c \in Alphabet : t' = Append(t, c)
           \/ \E o \in Octets : t' = t \o (IF n = 0 THEN <<>> ELSE <<Dot>>) \o DecText(o)

RECURSIVE Value(_)
Value(d) == IF d = <<>> THEN 0 ELSE IF Len(d) > 6 THEN 999999 ELSE 10 * Value(SubSeq(d, 1, Len(d) - 1)) + (d[Len(d)] - 48)
Slashes == {i \in 1..Len(t) : t[i] = Slash}
AddrPart == IF Slashes = {} THEN t ELSE SubSeq(t, 1, (CHOOSE i \in Slashes : TRUE) - 1)
MaskPart == IF Slashes = {} THEN <<>> ELSE SubSeq(t, (CHOOSE i \in Slashes : TRUE) + 1, Len(t))
(* the prefix lengths the mask part can mean *)
Meanings(W) ==
  IF Slashes = {} THEN {8 * W}
  ELSE {p \in 0..(8 * W) :
          \/ MaskPart # <<>> /\ (\A i \in 1..Len(MaskPart) : IsDigit(MaskPart[i])) /\ Value(MaskPart) = p
          \/ W = 4 /\ ParseV4(MaskPart).code = ErrNone /\ ParseV4(MaskPart).bytes = MaskW(4, p)
          \/ W = 4 /\ p # 0 /\ p # 32 /\ ParseV4(MaskPart).code = ErrNone /\ ParseV4(MaskPart).bytes = NotW(MaskW(4, p)) }
Widths == {4, 16}
Strict(W) == ParseNet(W, t, TRUE)
Lax(W) == ParseNet(W, t, FALSE)
OneMeaning == \A W \in Widths : Cardinality(Slashes) <= 1 => Cardinality(Meanings(W)) <= 1
LaxAccepts == \A W \in Widths : (Lax(W).code = ErrNone) <=> (Cardinality(Slashes) <= 1 /\ Meanings(W) # {} /\ ParseAddr(W, AddrPart).code = ErrNone)
StrictAccepts == \A W \in Widths : (Strict(W).code = ErrNone) <=>
     (Lax(W).code = ErrNone /\ IsAligned(ParseAddr(W, AddrPart).bytes, Lax(W).net.plen))
LaxMeaning == \A W \in Widths : Lax(W).code = ErrNone =>
     /\ Lax(W).net.plen \in Meanings(W)
     /\ Lax(W).net.addr = AndW(ParseAddr(W, AddrPart).bytes, MaskW(W, Lax(W).net.plen))
StrictIsLax == \A W \in Widths : Strict(W).code = ErrNone => Strict(W) = Lax(W)
HostBits == \A W \in Widths : Lax(W).code = ErrNone /\ Strict(W).code # ErrNone => Strict(W).code = ErrHostBits
Aligned == \A W \in Widths : \A x \in {Lax(W).net, Strict(W).net} : IsAligned(x.addr, x.plen) /\ x.plen \in 0..(8 * W)
DefaultOnError == \A W \in Widths : Lax(W).code # ErrNone => Lax(W).net = DefNet(W)
RoundTrip == \A W \in Widths : Lax(W).code = ErrNone => \A f \in {FmtFull, FmtCompact, FmtCompressed} :
     ParseNet(W, FormatNet(Lax(W).net, f), TRUE) = [code |-> ErrNone, net |-> Lax(W).net]
=============================================================================
