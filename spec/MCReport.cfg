SPECIFICATION Spec
INVARIANTS Invariant Commutes Neutral Ends
CHECK_DEADLOCK FALSE
