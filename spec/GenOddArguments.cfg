SPECIFICATION Spec
CONSTANTS Show = TRUE
INVARIANTS Emit OnlyKnownOptions OthersAreFiles
CHECK_DEADLOCK FALSE
