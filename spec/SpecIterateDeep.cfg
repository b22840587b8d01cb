SPECIFICATION Spec
CONSTANTS Depth = 3
          Systems = {"g", "u", "r"}
INVARIANTS Fresh TypeOK
CHECK_DEADLOCK FALSE
