SPECIFICATION Spec
CONSTANTS Depth = 2
          Systems = {"g", "u", "r"}
INVARIANTS Fresh TypeOK
CHECK_DEADLOCK FALSE
