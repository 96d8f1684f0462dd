INIT Init
NEXT Next
CONSTANT Plen = 2
CONSTANT Regs = 2
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
INVARIANTS OrderIsTotal OrderIsTransitive TurnReversesOrder DistanceCountsSteps
PROPERTY Frame
VIEW Only
CHECK_DEADLOCK FALSE
