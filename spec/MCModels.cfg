SPECIFICATION Spec
CONSTANTS NYs = {1, 2}
          LobeCounts = {1, 2}
          NPars = 1
          Small = TRUE
INVARIANTS Layout Independent NonNegative Bounded IsReciprocal FresnelEnds NormalizedEnds Proportional Isotropic Shadows
CHECK_DEADLOCK FALSE
