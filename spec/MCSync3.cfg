SPECIFICATION Spec
CONSTANTS Alphabet = {97, 98}
 MaxLen = 3
 Voters = 3
INVARIANTS Rebuilds Equal Apart Confluent Exhausted
PROPERTY Terminates
CHECK_DEADLOCK FALSE
