INIT Init
NEXT Next
CONSTANT Bodies <- SmallBodySet
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
INVARIANTS Extracts OnlyThere
CHECK_DEADLOCK FALSE
