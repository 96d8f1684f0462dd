INIT Init
NEXT Next
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
CONSTANT CharUtf8 = FALSE
CONSTANT MaxLen = 4
CHECK_DEADLOCK FALSE
INVARIANT Printed
INVARIANT Read
PROPERTY Local
