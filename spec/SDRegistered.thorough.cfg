SPECIFICATION Spec
CONSTANTS
 K = 4
 Use = {"plain", "full", "deep", "clear"}
INVARIANTS Clear All BaseOk Emit
CHECK_DEADLOCK FALSE
