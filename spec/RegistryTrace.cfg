CONSTANTS Regs = {1, 2}
          Threads = {0, 1, 2}
SPECIFICATION TSpec
CONSTRAINT Note
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
