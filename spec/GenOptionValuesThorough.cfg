SPECIFICATION Spec
CONSTANTS Show = TRUE
          Deep = TRUE
INVARIANTS Emit Found FewValuesAreMeaningful
CHECK_DEADLOCK FALSE
