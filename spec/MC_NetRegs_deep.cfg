INIT Init
NEXT Next
CONSTANT Top = 15
CONSTANT Regs = 3
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
INVARIANT OneBlock
PROPERTY Moves
VIEW Only
CHECK_DEADLOCK FALSE
