CONSTANTS NU = 2 NS = 0 NT = 1 NR = 2 KindsUsed = {"rvt", "dot", "dev"} Moving = FALSE EmitEdges = FALSE Slip = ""
SPECIFICATION Spec
VIEW View1
INVARIANTS Sound
PROPERTIES Isolated Ended Kept Authority
CHECK_DEADLOCK FALSE
