SPECIFICATION Spec
CONSTANTS Classes = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16}
 MaxLen = 3
INVARIANTS Declared Tiles NeverInside
PROPERTY Ends
CHECK_DEADLOCK FALSE
