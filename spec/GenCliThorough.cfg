SPECIFICATION Spec
CONSTANTS ToolNos = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17}
          MaxLen = 3
          Show = TRUE
          Sensible = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
