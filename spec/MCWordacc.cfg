SPECIFICATION Spec
CONSTANTS Alphabet = {1, 2, 3}
          MaxLen = 4
INVARIANTS BestKept RoundsAreDifferences FrontierInside ForcedIsInEvery
PROPERTY Terminates
CHECK_DEADLOCK FALSE
