CONSTANTS MaxIds = 3
          MaxGen = 3
          Threads = {}
          Edges = TRUE
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
