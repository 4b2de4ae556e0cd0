SPECIFICATION Spec
CONSTANTS Texts = {"a"}
          Others = {"p", "q"}
          WithTools = {"accuracy", "accsum"}
          MaxSteps = 5
          Show = FALSE
VIEW Content
INVARIANTS OneResult Grounded Regroup
PROPERTIES OnlyOutput Stable
CHECK_DEADLOCK FALSE
