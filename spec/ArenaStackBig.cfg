CONSTANTS Caps = {0, 1, 5, 9, 13}
          Bases = {0, 1, 2, 3}
          Sizes = {0, 1, 2, 3, 5, 8}
          Aligns = {1, 2, 4, 8}
          MaxBlocks = 5
          H = 1
          Edges = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS OffIsTop InBounds Disjoint
PROPERTIES Refines
CHECK_DEADLOCK FALSE
