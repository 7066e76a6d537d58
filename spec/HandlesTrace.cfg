SPECIFICATION TSpec
CONSTRAINT Progress
INVARIANT Sound
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
