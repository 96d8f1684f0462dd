INIT Init
NEXT Next
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
CONSTANT CharUtf8 = FALSE
CONSTANT Kind = "U"
CONSTANT Alphabet <- Units32
CONSTANT MaxLen = 3
CHECK_DEADLOCK FALSE
INVARIANT AcceptsAscii
INVARIANT PrefixDecoded
INVARIANT Symbols
INVARIANT Symbols16
INVARIANT Symbols32
INVARIANT NothingAccepted
PROPERTY Stable
