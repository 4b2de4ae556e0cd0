SPECIFICATION Spec
CONSTANTS Alphabet = {97, 126}
 MaxLen = 2
 Voters = 4
INVARIANTS Counted Symmetric Majority Ordered InRuns
PROPERTY Ends
CHECK_DEADLOCK FALSE
