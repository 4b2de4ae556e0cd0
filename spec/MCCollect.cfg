SPECIFICATION Spec
CONSTANTS Vocabulary = {1, 2, 3}
 MaxLen = 3
 Files = 2
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
