------------------------------ MODULE ExcludeRegs ------------------------------
(* Registers of iterators over exclusions: what is left of network x without its      *)
(* subnetwork y, from the k-th block on.  An iterator is a value: stepping one moves    *)
(* no other, and every copy visits the same blocks.                                     *)
EXTENDS NetAlg
ExcludedCount(x, y) == IF ExcludeCode(x, y) = ErrNone THEN y.plen - x.plen ELSE 0
ExcludedAt(x, y, k) == Sibling(Plain(y), x.plen + k)
AtEnd(it) == it.k > ExcludedCount(it.x, it.y)
Block1(it) == IF AtEnd(it) THEN <<>> ELSE <<ExcludedAt(it.x, it.y, it.k)>>
First(x, y) == [x |-> x, y |-> y, k |-> 1]
Past(x, y) == [x |-> x, y |-> y, k |-> ExcludedCount(x, y) + 1]
Stepped(it) == [it EXCEPT !.k = @ + 1]
Assign(s, i, it) == [s EXCEPT ![i] = it]
SwapRegs(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
=============================================================================
