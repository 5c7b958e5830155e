SPECIFICATION Spec
CONSTANTS
  Bases = {2}
  Steps = 3
  Hostile = TRUE
  Emit = FALSE
VIEW View
INVARIANTS NoTheft Custody Complete
CHECK_DEADLOCK FALSE
