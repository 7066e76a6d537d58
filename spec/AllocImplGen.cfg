SPECIFICATION Spec
CONSTANTS Cap = 13 MaxLen = 6 MaxReq = 3 Depth = 60 MergeRest = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
