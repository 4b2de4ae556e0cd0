SPECIFICATION Spec
CONSTANTS Show = TRUE
          Deep = FALSE
INVARIANTS Emit Found FewValuesAreMeaningful
CHECK_DEADLOCK FALSE
