SPECIFICATION Spec
CONSTANTS Alphabet = {97, 98, 126}
 MaxLen = 2
 Voters = 3
 Rules = {213}
INVARIANTS Elects Matches Unanimous NoThreshold Agrees Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
