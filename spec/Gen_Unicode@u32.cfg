INIT GenInit
NEXT GenNext
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
CONSTANT CharUtf8 = FALSE
CONSTANT Kind = "U"
CONSTANT Alphabet <- Units32
CONSTANT MaxLen = 2
CHECK_DEADLOCK FALSE
