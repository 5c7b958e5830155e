SPECIFICATION Spec
CONSTANTS
  Insts = {1, 2}
  MaxRuns = 3
  MaxOps = 8
  EmitEdges = FALSE
INVARIANTS Kept Gone
CHECK_DEADLOCK FALSE
