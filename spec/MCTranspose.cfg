SPECIFICATION Spec
CONSTANTS Alphabet = {97, 98, 126}
 MaxLen = 3
INVARIANTS Rebuilds Paired Descending LongestOfAll Leftmost Exhausted Agrees
PROPERTY Ends
CHECK_DEADLOCK FALSE
