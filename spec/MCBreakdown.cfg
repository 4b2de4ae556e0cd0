SPECIFICATION Spec
CONSTANT MaxWords = 3
INVARIANTS AsDeclared FromRuns Consistent NeverMoreMissed
PROPERTY Ends
CHECK_DEADLOCK FALSE
