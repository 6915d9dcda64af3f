CONSTANTS NKeys = 5
          N0 = 4
          NMax = 8
          Edges = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Same Finds Ordered
CHECK_DEADLOCK FALSE
