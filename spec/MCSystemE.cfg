SPECIFICATION Spec
CONSTANTS Devs = {1, 2}  N = 2  Loaders = {1}  Keepers = {2}  Given = {0, 3}  MaxRvt = 1  EmitEdges = FALSE  Slip = ""
INVARIANTS LastCopy Redirect Owned Arrives
PROPERTIES Kept WholeFolder
VIEW View
CHECK_DEADLOCK FALSE
