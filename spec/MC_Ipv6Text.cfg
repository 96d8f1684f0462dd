INIT Init
NEXT Next
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
CONSTANT Alphabet <- AlphaTwo
CONSTANT Starts <- Starts0
CONSTANT MaxExtra = 16
INVARIANTS Unambiguous Complete Value Default Agrees RoundTrip ScopeOrthogonal
PROPERTY Final
CHECK_DEADLOCK FALSE
