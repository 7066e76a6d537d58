SPECIFICATION TSpec
CONSTRAINT Progress
POSTCONDITION Accepted
INVARIANT Sound
CHECK_DEADLOCK FALSE
