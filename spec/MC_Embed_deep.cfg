INIT Init
NEXT Next
CONSTANT Bodies <- BodySet
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
INVARIANTS Extracts OnlyThere
CHECK_DEADLOCK FALSE
