INIT Init
NEXT Next
CONSTANT Base = 8
CONSTANT Bits = 3
CONSTANT Digits <- Few
CHECK_DEADLOCK FALSE
INVARIANT Exact
INVARIANT Bounded
