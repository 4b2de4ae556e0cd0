SPECIFICATION Spec
CONSTANTS Alphabet = {97, 98, 126}
          MaxLen = 3
INVARIANTS ResultValid ResultOptimal FrontierSound BoundedRounds BagBoundSound
PROPERTY Terminates
CHECK_DEADLOCK FALSE
