CONSTANTS Caps = {0, 1, 5, 9}
          Bases = {0, 1, 3}
          Sizes = {0, 1, 2, 5}
          Aligns = {1, 2, 4}
          MaxBlocks = 3
          H = 0
          Edges = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS OffIsTop InBounds Disjoint
PROPERTIES Refines
CHECK_DEADLOCK FALSE
