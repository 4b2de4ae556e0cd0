SPECIFICATION Spec
CONSTANTS Items = {1, 2}
          Lists = {0}
          Entries = {}
          Keys = 0
          Depth = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
