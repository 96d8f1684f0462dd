INIT Init
NEXT Next
CONSTANTS TopByte = 255
 MaxLen = 4
INVARIANTS Total EqualIsIdentity Transitive VersionsFirst NumbersSecond Sorted
CHECK_DEADLOCK FALSE
