SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Names = 1
INVARIANT Correct
PROPERTY Reads
CHECK_DEADLOCK FALSE
