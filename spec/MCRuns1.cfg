SPECIFICATION Spec
CONSTANTS
  Proto = 1
  Entries = 2
  EmitEdges = FALSE
  Slip = ""
INVARIANTS TrueVerdict Sane Fair NothingLost
PROPERTY Ends
