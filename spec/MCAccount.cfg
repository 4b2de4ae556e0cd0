SPECIFICATION Spec
CONSTANTS MaxSegs = 3
 MaxSide = 2
INVARIANT Sound
PROPERTY Grows
CHECK_DEADLOCK FALSE
