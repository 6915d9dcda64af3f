CONSTANTS NKeys = 8
          N0 = 8
          NMax = 16
          Edges = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Same Finds Ordered
CHECK_DEADLOCK FALSE
