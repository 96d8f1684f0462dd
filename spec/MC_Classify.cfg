INIT Init
NEXT Next
CONSTANT Near = 1
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
INVARIANTS BlocksAligned InIsInterval PrivateNotGlobal Consistent EndsAgree Hereditary EmbedOnce
CHECK_DEADLOCK FALSE
