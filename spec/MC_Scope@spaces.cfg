INIT Init
NEXT Next
VIEW View
CONSTANT ScopeMax = 1
CONSTANT ScopeSpaces = TRUE
CONSTANT Alphabet <- SmallAlphabet
CONSTANT MaxText = 2
INVARIANTS AlwaysValid Decided Stored FailureChangesNothing BitsAreSafe Numeric ParseAgrees
CHECK_DEADLOCK FALSE
