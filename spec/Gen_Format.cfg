INIT GenInit
NEXT GenNext
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
CONSTANT Values <- FewValues
CHECK_DEADLOCK FALSE
