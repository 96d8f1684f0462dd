INIT Init
NEXT Next
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
CONSTANT Alphabet <- None
CONSTANT Octets <- ManyOctets
CONSTANT Starts <- MaskStarts
CONSTANT MaxExtra = 4
INVARIANTS OneMeaning LaxAccepts StrictAccepts LaxMeaning StrictIsLax HostBits Aligned DefaultOnError RoundTrip
CHECK_DEADLOCK FALSE
