CONSTANT MaxLen = 8
CONSTANT Chars = {1, 2}
CONSTANT Sizes = {1, 2, 3}
SPECIFICATION Spec
INVARIANT Same
CHECK_DEADLOCK FALSE
