INIT Init
NEXT Next
VIEW View
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
CHECK_DEADLOCK FALSE
