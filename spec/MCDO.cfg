SPECIFICATION Spec
CONSTANTS
  MaxSess = 1
  EmitEdges = FALSE
  Full = TRUE
  DevUsed = {1}
  NOwn = 2
  WithRv = FALSE
VIEW View
INVARIANTS KeyOnlyByProof FinIsDone
PROPERTIES InOrder OwnKeyOnly OrderedItems DoneOnlyComplete Frame
CHECK_DEADLOCK FALSE
