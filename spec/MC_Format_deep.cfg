INIT Init
NEXT Next
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
CONSTANT Values <- ManyValues
INVARIANTS RoundTrip IsOneOfThem Leftmost FullLength CompactHasNoLeadingZeros ReverseIsReverse
CHECK_DEADLOCK FALSE
