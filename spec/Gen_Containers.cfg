INIT Init
NEXT Next
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
CONSTANT CharUtf8 = FALSE
CONSTANT N = 6
CONSTANT Alphabet = {97, 200}
CHECK_DEADLOCK FALSE
