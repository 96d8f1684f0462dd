INIT Init
NEXT Next
CONSTANT MaxLen = 7
INVARIANTS Agrees Canonical Complete Default
PROPERTY Final
CHECK_DEADLOCK FALSE
