SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Chars = {10, 32, 97, 98}
 Counts = {0, 2}
INVARIANTS Right InParts AnyOrder
PROPERTY Ends
CHECK_DEADLOCK FALSE
