INIT Init
NEXT Next
CONSTANT ScopeMax = 2
CONSTANT ScopeSpaces = FALSE
CONSTANT CharUtf8 = FALSE
CONSTANT Unit = "8"
CONSTANT Alphabet <- Few
CONSTANT MaxLen = 3
CHECK_DEADLOCK FALSE
INVARIANT Agrees
INVARIANT Default
INVARIANT Numbered
PROPERTY Overwritten
