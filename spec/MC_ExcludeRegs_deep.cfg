INIT Init
NEXT Next
CONSTANT Regs = 2
CONSTANT MinPlen = 2
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
INVARIANTS Partition AsListed
PROPERTY Frame
VIEW Only
CHECK_DEADLOCK FALSE
