SPECIFICATION Spec
CONSTANTS Cap = 10 MaxLen = 4 MaxReq = 2 Depth = 1000 MergeRest = FALSE
INVARIANTS TypeOK Partition Largest NeverRefuses
PROPERTY Refines
VIEW NoOps
CHECK_DEADLOCK FALSE
