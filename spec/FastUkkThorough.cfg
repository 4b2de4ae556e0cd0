SPECIFICATION Spec
CONSTANTS Alphabet = {97, 98, 126}
          MaxLen = 4
INVARIANTS ResultValid ResultOptimal BoundedRounds
CHECK_DEADLOCK FALSE
