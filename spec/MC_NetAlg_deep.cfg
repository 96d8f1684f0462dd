INIT Init
NEXT Next
CONSTANT MinPlen = 0
CONSTANT ScopeMax = 16
CONSTANT ScopeSpaces = FALSE
INVARIANTS TypeOK ContainsIsMembership OverlapsIsIntersection SubnetIsInclusion Laminar SubnetsPartition SupernetUnique ExcludePartitions ExcludeOnlyContained HostsAreUsable
CHECK_DEADLOCK FALSE
