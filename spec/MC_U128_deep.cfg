INIT Init
NEXT Next
CONSTANT Width = 1
CONSTANT Values <- All
CHECK_DEADLOCK FALSE
INVARIANT Arith
INVARIANT Shifts
INVARIANT Texts
INVARIANT Floats
INVARIANT Truncates
INVARIANT Extends
