SPECIFICATION DSpec
CONSTANTS Threads = {0, 1, 2}
          MaxVal = 4
INVARIANT Conservation
CHECK_DEADLOCK FALSE
