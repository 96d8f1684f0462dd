INIT GenInit
NEXT GenNext
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
CONSTANT CharUtf8 = FALSE
CONSTANT Kind = "8"
CONSTANT Alphabet <- Bytes8
CONSTANT MaxLen = 3
CHECK_DEADLOCK FALSE
