SPECIFICATION Spec
CONSTANTS Classes = {0,2,4,5,8,9,10,11,12,15,16}
 MaxLen = 5
INVARIANTS Declared Tiles NeverInside
PROPERTY Ends
CHECK_DEADLOCK FALSE
