CONSTANTS N = 3 MaxEnds = 2 Slip = ""
SPECIFICATION Spec
INVARIANTS Durable NotTorn
CHECK_DEADLOCK FALSE
