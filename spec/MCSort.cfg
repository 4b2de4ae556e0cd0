SPECIFICATION Spec
CONSTANTS Values = {1, 2, 3, 4}
          MaxLen = 5
INVARIANTS Sorted Kept Meet
PROPERTY Ends
CHECK_DEADLOCK FALSE
