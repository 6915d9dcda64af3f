CONSTANTS MaxIds = 4
          MaxGen = 1
          Edges = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS LocationsRight NothingElse Packed PoolRight

CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
