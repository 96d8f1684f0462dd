INIT Init
NEXT Next
CONSTANT Bits = 5
INVARIANTS RepresentationInStep OrderIsOfPositions DifferenceIsOfPositions
CHECK_DEADLOCK FALSE
