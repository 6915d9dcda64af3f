CONSTANTS MaxIds = 9
          MaxGen = 9
          Edges = FALSE
          N = 7
          Focus = {"L5"}
          Late = TRUE
          Adds = {}
SPECIFICATION HSpec
INVARIANTS LocationsRight NothingElse Packed PoolRight Show
CHECK_DEADLOCK FALSE
