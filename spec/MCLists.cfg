SPECIFICATION Spec
CONSTANT Items = {1, 2, 3, 4, 5}
INVARIANTS Refines ArrayRight Detached
CHECK_DEADLOCK FALSE
