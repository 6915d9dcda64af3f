CONSTANTS MaxIds = 4
          MaxGen = 1
          Edges = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS LocationsRight NothingElse Packed PoolRight
PROPERTIES OneEntity NeverReused
CHECK_DEADLOCK FALSE
