SPECIFICATION Spec
CONSTANTS
  MaxSess = 2
  EmitEdges = FALSE
  Full = FALSE
  DevUsed = {1,2}
  NOwn = 2
  WithRv = TRUE
VIEW View
INVARIANTS KeyOnlyByProof FinIsDone
PROPERTIES InOrder OwnKeyOnly OrderedItems DoneOnlyComplete Frame
CHECK_DEADLOCK FALSE
