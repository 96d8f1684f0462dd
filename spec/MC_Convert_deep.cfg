INIT Init
NEXT Next
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
CONSTANT W = 3
CONSTANT Top = 600
CONSTANT Longest = 4
CHECK_DEADLOCK FALSE
INVARIANT RoundTrip
INVARIANT Ordered
INVARIANT Foreign
