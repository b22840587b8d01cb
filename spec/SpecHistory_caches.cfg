SPECIFICATION Spec
CONSTANTS Args = {"x", "y"}
          Calls = {"f", "g"}
          Values = {0, 1}
          MaxLen = 5
          Fault = "caches"
INVARIANT Faithful
CHECK_DEADLOCK FALSE
