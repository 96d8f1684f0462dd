INIT Init
NEXT Next
CONSTANT Bits = 7
INVARIANTS RepresentationInStep OrderIsOfPositions DifferenceIsOfPositions
CHECK_DEADLOCK FALSE
