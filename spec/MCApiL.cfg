CONSTANTS NU = 2 NS = 2 NT = 2 NR = 1 KindsUsed = {"rvt"} Moving = TRUE EmitEdges = FALSE Slip = ""
SPECIFICATION Spec
VIEW View1
INVARIANTS Sound
PROPERTIES Isolated Ended Kept Authority
CHECK_DEADLOCK FALSE
