SPECIFICATION Spec
CONSTANT Part = "drop"
INVARIANTS DistOK CostOK DropOK
CHECK_DEADLOCK FALSE
