-------------------------------- MODULE Convert --------------------------------
(***************************************************************************)
(* Unsigned integers and byte sequences in network byte order.             *)
(***************************************************************************)
EXTENDS NetText
(* the first W of the given bytes, missing ones zero *)
FromBytes(bs, W) == [i \in 1..W |-> IF i <= Len(bs) THEN bs[i] ELSE 0]
(* an integer, as bytes of the machine that are least significant first *)
Swapped(w) == [i \in 1..Len(w) |-> w[Len(w) + 1 - i]]
(* the low 32 bits, and all the bits, of an address of either version *)
ToUint32(b) == ResizeW(b, 4)
ToUint128(b) == ResizeW(b, 16)
=============================================================================
