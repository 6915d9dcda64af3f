SPECIFICATION TSpec
INVARIANT Note
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
