CONSTANTS NIds = 4
          Edges = TRUE
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
