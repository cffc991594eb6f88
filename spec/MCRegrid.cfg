SPECIFICATION Spec
CONSTANTS Sizes2 <- S2
          Sizes3 <- S3
          Vals = {0, 144, 288}
          Depth = 1
          MaxRows = 6
INVARIANTS Places Within Same Keeps Constant NoAzimuth Moments
CHECK_DEADLOCK FALSE
