------------------------------ MODULE MC_Convert ------------------------------
(* An integer, an address' bytes and a foreign byte string, converted back and forth in any order. *)
EXTENDS Convert
CONSTANTS W, Top, Longest
VARIABLES n, b, s
vars == <<n, b, s>>
Byte3 == {0, 1, 255}
Init == n \in 0..Top /\ b = NatW(0, W) /\ s = <<>>
Next ==
  \/ b' = NatW(n, W) /\ UNCHANGED <<n, s>>                       \* from_uint
  \/ n' = ToNat(b) /\ UNCHANGED <<b, s>>                         \* to_uint
  \/ s' = b /\ UNCHANGED <<n, b>>                                \* bytes
  \/ Len(s) < Longest /\ \E x \in Byte3 : s' = Append(s, x) /\ UNCHANGED <<n, b>>
  \/ s # <<>> /\ s' = Tail(s) /\ UNCHANGED <<n, b>>
  \/ b' = FromBytes(s, W) /\ UNCHANGED <<n, s>>                  \* from_bytes
  \/ b' = Swapped(b) /\ UNCHANGED <<n, s>>
RoundTrip == /\ ToNat(NatW(n, W)) = n /\ NatW(ToNat(b), W) = b
             /\ FromBytes(b, W) = b /\ Swapped(Swapped(b)) = b
             /\ ToUint32(b) = ToUint32(ToUint128(b))
(* the order of addresses is that of their integers *)
Ordered == LeW(NatW(n, W), b) <=> n <= ToNat(b)
Foreign == LET f == FromBytes(s, W)
           IN /\ Len(f) = W
              /\ \A i \in 1..W : f[i] = (IF i <= Len(s) THEN s[i] ELSE 0)
              /\ FromBytes(s \o <<7>>, W) = (IF Len(s) >= W THEN f ELSE [f EXCEPT ![Len(s) + 1] = 7])
=============================================================================
