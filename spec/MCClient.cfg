SPECIFICATION Spec
CONSTANTS
  Flows = {"to0", "to1", "to2"}
  Bases = {1, 2}
  Edits = 1
  Impostor = FALSE
  EmitEdges = FALSE
  Devs = {}
VIEW View
INVARIANTS NoImpostor NoImpostorFree Completed
CHECK_DEADLOCK FALSE
