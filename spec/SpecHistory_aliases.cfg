SPECIFICATION Spec
CONSTANTS Args = {"x", "y"}
          Calls = {"f", "g"}
          Values = {0, 1}
          MaxLen = 5
          Fault = "aliases"
INVARIANT Faithful
CHECK_DEADLOCK FALSE
