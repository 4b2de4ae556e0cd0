SPECIFICATION Spec
CONSTANTS Entries = {1, 2, 3, 4}
          Keys = {1, 2, 3}
          Buckets = 2
INVARIANTS LookupRight CountRight ArrayRight
CHECK_DEADLOCK FALSE
