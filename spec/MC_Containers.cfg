INIT Init
NEXT Next
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
CONSTANT CharUtf8 = FALSE
CONSTANT N = 3
CONSTANT Units = {0, 97, 98, 200}
CHECK_DEADLOCK FALSE
INVARIANT Represents
INVARIANT Ordered
