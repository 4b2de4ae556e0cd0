SPECIFICATION Spec
CONSTANT Part = "dist"
INVARIANTS DistOK CostOK DropOK
CHECK_DEADLOCK FALSE
