CONSTANTS MaxIds = 4
          MaxGen = 2
          Threads = {1, 2}
          Edges = FALSE
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Shape
PROPERTY Refines
