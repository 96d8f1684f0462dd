INIT Init
NEXT Next
CONSTANT Base = 8
CONSTANT Bits = 3
CHECK_DEADLOCK FALSE
