SPECIFICATION Spec
CONSTANTS ToolNos = {1, 2, 3, 4, 5, 6}
          MaxLen = 3
          Show = FALSE
          Sensible = FALSE
INVARIANTS Accounted OrderIrrelevant FlagMoves
PROPERTY Ends
CHECK_DEADLOCK FALSE
