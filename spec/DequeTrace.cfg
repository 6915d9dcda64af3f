SPECIFICATION TSpec
CONSTANTS Threads = {0, 1, 2, 3}
          MaxVal = 1
INVARIANT Note
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
