SPECIFICATION Spec
CONSTANTS
  Proto = 0
  Entries = 1
  EmitEdges = FALSE
  Slip = ""
INVARIANTS TrueVerdict Sane Fair NothingLost
VIEW View
