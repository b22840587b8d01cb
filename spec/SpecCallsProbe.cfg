SPECIFICATION SpecProbe
CONSTANTS Depth = 100
          Keep = 8
          Variants = 4
INVARIANT Owned
CHECK_DEADLOCK FALSE
