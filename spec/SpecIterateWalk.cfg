SPECIFICATION Spec
CONSTANTS Depth = 12
          Systems = {"g", "u", "r"}
INVARIANTS Fresh TypeOK
CHECK_DEADLOCK FALSE
