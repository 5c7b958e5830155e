SPECIFICATION Spec
CONSTANTS
  Flows = {"to2"}
  Bases = {0, 1, 2}
  Edits = 2
  Impostor = TRUE
  EmitEdges = FALSE
  Devs = {}
VIEW View
INVARIANTS NoImpostor NoImpostorFree Completed
CHECK_DEADLOCK FALSE
