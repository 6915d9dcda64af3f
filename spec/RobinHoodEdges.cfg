CONSTANTS NKeys = 5
          N0 = 4
          NMax = 8
          Edges = TRUE
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
