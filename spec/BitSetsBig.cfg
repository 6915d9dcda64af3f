CONSTANTS NIds = 6
          Edges = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Content Equality
CHECK_DEADLOCK FALSE
