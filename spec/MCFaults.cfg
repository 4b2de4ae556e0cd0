SPECIFICATION Spec
CONSTANTS ToolSet = {"accuracy", "wordacc", "groupacc", "editopsum"}
          Length = 3
          MaxFaults = 2
          Handles = 1
          Show = FALSE
INVARIANTS AllOrNothing Visible RefusalWritesNothing FaultsAreFailures
PROPERTY Ends
CHECK_DEADLOCK FALSE
