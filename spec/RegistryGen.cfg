CONSTANTS Regs = {1, 2}
          Threads = {0, 1, 2}
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
