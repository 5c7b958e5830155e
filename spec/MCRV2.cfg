SPECIFICATION Spec
CONSTANTS
  MaxSess = 3
  MaxBlob = 2
  EmitEdges = FALSE
  Full = FALSE
  Waits = {3600}
  GuidsUsed = {1, 2}
VIEW View
INVARIANTS StoredIsNewest OnlyProven LifetimeBound
PROPERTIES RedirectSound RefusalIsNoOp
CHECK_DEADLOCK FALSE
