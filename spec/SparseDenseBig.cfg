CONSTANTS NKeys = 5
          Edges = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Content Finds
CHECK_DEADLOCK FALSE
