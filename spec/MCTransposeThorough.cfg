SPECIFICATION Spec
CONSTANTS Alphabet = {97, 98}
 MaxLen = 5
INVARIANTS Rebuilds Paired Descending LongestOfAll Leftmost Exhausted Agrees
PROPERTY Ends
CHECK_DEADLOCK FALSE
