INIT GenInit
NEXT GenNext
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
CONSTANT Alphabet <- None
CONSTANT Octets <- SomeOctets
CONSTANT Starts <- MaskStarts
CONSTANT MaxExtra = 4
CHECK_DEADLOCK FALSE
