CONSTANTS MaxIds = 9
          MaxGen = 9
          Edges = FALSE
          N = 4
          Focus = {"L7"}
          Late = FALSE
          Adds = {"L5"}
SPECIFICATION HSpec
INVARIANTS LocationsRight NothingElse Packed PoolRight Show
CHECK_DEADLOCK FALSE
