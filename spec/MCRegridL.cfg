SPECIFICATION Spec
CONSTANTS Sizes2 <- S2L
          Sizes3 <- S3L
          Vals = {0, 144}
          Depth = 2
          MaxRows = 12
INVARIANTS Places Within Same Keeps Constant NoAzimuth Moments
CHECK_DEADLOCK FALSE
