SPECIFICATION Spec
CONSTANTS Items = {1, 2, 3, 4, 5, 6}
          Lists = {0, 1}
          Entries = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
          Keys = 8
          Depth = 60
INVARIANT Emit
CHECK_DEADLOCK FALSE
