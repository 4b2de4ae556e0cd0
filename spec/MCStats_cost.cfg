SPECIFICATION Spec
CONSTANT Part = "cost"
INVARIANTS DistOK CostOK DropOK
CHECK_DEADLOCK FALSE
