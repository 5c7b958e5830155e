SPECIFICATION Spec
CONSTANTS
  Proto = 0
  Entries = 2
  EmitEdges = FALSE
  Slip = ""
INVARIANTS TrueVerdict Sane Fair NothingLost
PROPERTY Ends
