SPECIFICATION TSpec
CONSTRAINT Progress
POSTCONDITION Accepted
INVARIANTS Inside
CHECK_DEADLOCK FALSE
