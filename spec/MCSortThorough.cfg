SPECIFICATION Spec
CONSTANTS Values = {1, 2, 3, 4}
          MaxLen = 7
INVARIANTS Sorted Kept Meet
PROPERTY Ends
CHECK_DEADLOCK FALSE
