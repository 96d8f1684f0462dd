CONSTANTS ScopeMax = 16
 ScopeSpaces = FALSE
 ManyValues = TRUE
INIT Init
NEXT Next
INVARIANTS WellFormed OneVersion Mixed RoundTrip
PROPERTIES Frame Failures
VIEW Small
CHECK_DEADLOCK FALSE
