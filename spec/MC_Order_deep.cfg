INIT Init
NEXT Next
CONSTANTS TopByte = 255
 MaxLen = 6
INVARIANTS Total EqualIsIdentity Transitive VersionsFirst NumbersSecond Sorted
CHECK_DEADLOCK FALSE
