INIT GenInit
NEXT GenNext
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
CONSTANT Alphabet <- Digits8
CONSTANT Octets <- None
CONSTANT Starts <- AllStarts
CONSTANT MaxExtra = 4
CHECK_DEADLOCK FALSE
