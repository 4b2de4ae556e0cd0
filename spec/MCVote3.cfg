SPECIFICATION Spec
CONSTANTS Alphabet = {97, 98, 126}
 MaxLen = 1
 Voters = 3
 Rules = {110, 213, 314}
INVARIANTS Elects Matches Unanimous NoThreshold Agrees Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
