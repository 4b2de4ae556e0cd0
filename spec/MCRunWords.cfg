CONSTANT MaxLen = 4
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
