INIT Init
NEXT Nothing
CONSTANTS ToolSet = {}
          Length = 0
          MaxFaults = 1
          Handles = 1
          Show = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
