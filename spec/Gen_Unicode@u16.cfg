INIT GenInit
NEXT GenNext
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
CONSTANT CharUtf8 = FALSE
CONSTANT Kind = "u"
CONSTANT Alphabet <- Units16
CONSTANT MaxLen = 2
CHECK_DEADLOCK FALSE
