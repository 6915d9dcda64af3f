CONSTANTS NKeys = 4
          Edges = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Content Finds
CHECK_DEADLOCK FALSE
