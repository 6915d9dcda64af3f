CONSTANTS MaxIds = 5
          MaxGen = 3
          Threads = {1, 2, 3}
          Edges = FALSE
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Shape
PROPERTY Refines
