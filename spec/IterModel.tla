------------------------------- MODULE IterModel -------------------------------
(* Iterators over the aligned blocks of one prefix length (addresses are blocks *)
(* of the full length).  An iterator is a position: the number of blocks before *)
(* the one it designates, from -1 (before the first block of the address space) *)
(* to 2^plen (past the last one).  A reverse iterator with base k designates    *)
(* k - 1.  Positions are signed words of W + 4 bytes in two's complement.       *)
EXTENDS NetAlg

SBytes(W) == W + 4
SNeg(s) == s[1] >= 128
SAbs(s) == IF SNeg(s) THEN NegW(s) ELSE s
SLess(a, b) == SNeg(SubW(a, b))                       \* differences never overflow
SExt(w, n) == IF Len(w) >= n THEN ResizeW(w, n)
              ELSE (IF w[1] >= 128 THEN Ones(n - Len(w)) ELSE Zero(n - Len(w))) \o w
UExt(w, n) == ResizeW(w, n)
Count(W, p) == ShlW(OneW(SBytes(W)), p)               \* 2^p blocks in the address space

(* the block at a position, if there is one *)
Exists(W, p, s) == ~SNeg(s) /\ LtW(s, Count(W, p))
ElementAt(W, p, s) ==
  IF Exists(W, p, s) THEN [addr |-> ShlW(ResizeW(s, W), 8 * W - p), plen |-> p]
  ELSE [addr |-> <<>>, plen |-> p]

(* an iterator is [rev, k]: for a reverse iterator k is its base *)
At(it) == IF it.rev THEN DecW(it.k) ELSE it.k
Designates(W, p, it) == ElementAt(W, p, At(it))
Moved(it, d) == [it EXCEPT !.k = IF it.rev THEN SubW(@, d) ELSE AddW(@, d)]
(* signed distance from a to b, in the direction of iteration *)
Distance(a, b) == IF a.rev THEN SubW(a.k, b.k) ELSE SubW(b.k, a.k)
(* as the library returns it: signed 64 bits; one address space of addresses counts as none *)
Whole(W, d) == SAbs(d) = Count(W, 8 * W)
Diff64(W, d) == IF Whole(W, d) THEN Zero(8) ELSE SExt(d, 8)
(* unsigned, modulo the number of blocks *)
UDiff(W, p, d) ==
  IF SAbs(d) = Count(W, p) THEN ResizeW(Count(W, p), W)
  ELSE ResizeW(AndW(d, DecW(Count(W, p))), W)
(* two iterators of the same direction, [W, p, rev, k]: those of the narrower addresses come first, *)
(* and there is no distance between iterators of different address spaces                            *)
Compared(x, y) ==
  IF x.W # y.W THEN LET less == IF x.rev THEN y.W < x.W ELSE x.W < y.W
                    IN [eq |-> FALSE, lt |-> less, gt |-> ~less, diff |-> Zero(8), udiff |-> Zero(x.W)]
  ELSE LET far == Distance(y, x)                      \* x - y
       IN [eq |-> x.k = y.k, lt |-> SNeg(far), gt |-> ~SNeg(far) /\ ~IsZero(far), diff |-> Diff64(x.W, far), udiff |-> UDiff(x.W, x.p, far)]
(* the ends of the sequences: the subnets of n with prefix length p, and the hosts of n *)
(* block index of an address, as a position *)
IndexOfAddr(W, p, a) == UExt(ShrW(a, 8 * W - p), SBytes(W))
Begin(W, n, p) == IndexOfAddr(W, p, n.addr)
End(W, n, p) == IF p = n.plen THEN IncW(Begin(W, n, p)) ELSE AddW(Begin(W, n, p), ShlW(OneW(SBytes(W)), p - n.plen))
HostsBegin(W, n) == UExt(HostsFirst(n), SBytes(W))
HostsEnd(W, n) == IF n.plen = 8 * W \/ n.plen = 8 * W - 1 THEN IncW(UExt(Broadcast(n), SBytes(W)))
                  ELSE IF W = 16 THEN IncW(UExt(Broadcast(n), SBytes(W))) ELSE UExt(Broadcast(n), SBytes(W))
=============================================================================
