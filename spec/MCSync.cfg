SPECIFICATION Spec
CONSTANTS Alphabet = {97, 98, 126}
 MaxLen = 3
 Voters = 2
INVARIANTS Rebuilds Equal Apart Confluent Exhausted ScanIsCommon
PROPERTY Terminates
CHECK_DEADLOCK FALSE
