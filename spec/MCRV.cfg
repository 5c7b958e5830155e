SPECIFICATION Spec
CONSTANTS
  MaxSess = 2
  MaxBlob = 2
  EmitEdges = FALSE
  Full = TRUE
  Waits = {3600, 0}
  GuidsUsed = {1}
VIEW View
INVARIANTS StoredIsNewest OnlyProven LifetimeBound
PROPERTIES RedirectSound RefusalIsNoOp
CHECK_DEADLOCK FALSE
