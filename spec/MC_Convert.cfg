INIT Init
NEXT Next
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
CONSTANT W = 2
CONSTANT Top = 300
CONSTANT Longest = 3
CHECK_DEADLOCK FALSE
INVARIANT RoundTrip
INVARIANT Ordered
INVARIANT Foreign
