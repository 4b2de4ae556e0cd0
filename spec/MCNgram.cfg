SPECIFICATION Spec
CONSTANTS Alphabet = {1, 2}
          MaxLen = 3
          Files = 2
          Sizes = {1, 2, 3}
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
