INIT Init
NEXT Next
CONSTANT Base = 4
CONSTANT Bits = 2
CONSTANT Digits <- Digit
CHECK_DEADLOCK FALSE
INVARIANT Exact
INVARIANT Bounded
