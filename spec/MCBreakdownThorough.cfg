SPECIFICATION Spec
CONSTANT MaxWords = 5
INVARIANTS AsDeclared FromRuns Consistent NeverMoreMissed
PROPERTY Ends
CHECK_DEADLOCK FALSE
