SPECIFICATION SimSpec
CONSTANTS Texts = {"a", "b", "c"}
          Others = {"p", "q", "r", "s"}
          WithTools = {}
          MaxSteps = 14
          Show = TRUE
INVARIANTS Emit OneResult Grounded
CHECK_DEADLOCK FALSE
