SPECIFICATION Spec
CONSTANTS Alphabet = {97, 98, 126}
 MaxLen = 2
 Voters = 2
 Rules = {110, 212}
INVARIANTS Elects Matches Unanimous NoThreshold Agrees Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
