CONSTANTS P = 1 Slots = 2 MaxRuns = 2 EmitEdges = FALSE Slip = ""
SPECIFICATION Spec
VIEW View
INVARIANTS InOrder Complete Once PendOk
PROPERTIES Truth Keeps
CHECK_DEADLOCK FALSE
