SPECIFICATION Spec
CONSTANTS
  Bases = {0, 1, 2, 3}
  Steps = 2
  Hostile = TRUE
  Emit = FALSE
VIEW View
INVARIANTS NoTheft Custody Complete
CHECK_DEADLOCK FALSE
