SPECIFICATION Spec
CONSTANTS Alphabet = {97, 9, 32, 10}
          MaxLen = 4
INVARIANTS TypeOK ComputesNormalForm ResultIsNormal Idempotent InkPreserved InsertionInvariant
CHECK_DEADLOCK FALSE
