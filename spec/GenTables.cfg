SPECIFICATION Spec
CONSTANTS Items = {}
          Lists = {}
          Entries = {0, 1, 2}
          Keys = 2
          Depth = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
