INIT Init
NEXT Next
VIEW View
CONSTANT ScopeMax = 0
CONSTANT ScopeSpaces = FALSE
CONSTANT Alphabet <- SmallAlphabet
CONSTANT MaxText = 3
INVARIANTS AlwaysValid Decided Stored FailureChangesNothing BitsAreSafe Numeric ParseAgrees
CHECK_DEADLOCK FALSE
