INIT Init
NEXT Next
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
CONSTANT Alphabet <- AlphaTail
CONSTANT Starts <- StartsTail
CONSTANT MaxExtra = 8
INVARIANTS Unambiguous Complete Value Default Agrees RoundTrip ScopeOrthogonal
PROPERTY Final
CHECK_DEADLOCK FALSE
