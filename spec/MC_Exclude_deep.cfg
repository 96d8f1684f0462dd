SPECIFICATION Spec
CONSTANT MinPlen = 0
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
INVARIANTS PrefixOfResult Complete
PROPERTY Terminates
CHECK_DEADLOCK FALSE
