CONSTANTS MaxIds = 9
          MaxGen = 9
          Edges = FALSE
          N = 5
          Focus = {"L7"}
          Late = FALSE
          Adds = {}
SPECIFICATION HSpec
INVARIANTS LocationsRight NothingElse Packed PoolRight Show
CHECK_DEADLOCK FALSE
