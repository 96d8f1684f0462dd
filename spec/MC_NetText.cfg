INIT Init
NEXT Next
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
CONSTANT Alphabet <- Digits8
CONSTANT Octets <- None
CONSTANT Starts <- AllStarts
CONSTANT MaxExtra = 4
INVARIANTS OneMeaning LaxAccepts StrictAccepts LaxMeaning StrictIsLax HostBits Aligned DefaultOnError RoundTrip
CHECK_DEADLOCK FALSE
