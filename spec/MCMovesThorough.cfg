SPECIFICATION Spec
CONSTANTS MaxBlocks = 5
 Lengths = {1,2}
INVARIANTS Arrangement Kept ExactReduction Fewer InOrder Agrees
PROPERTY Ends
CHECK_DEADLOCK FALSE
