SPECIFICATION Spec
CONSTANTS Cap = 13 MaxLen = 6 MaxReq = 3 Depth = 1000 MergeRest = TRUE
INVARIANTS TypeOK Partition Largest NeverRefuses
PROPERTY Refines
VIEW NoOps
CHECK_DEADLOCK FALSE
