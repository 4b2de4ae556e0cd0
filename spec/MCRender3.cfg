SPECIFICATION Spec
CONSTANTS MaxLen = 2
 Names = 2
INVARIANT Correct
PROPERTY Reads
CHECK_DEADLOCK FALSE
