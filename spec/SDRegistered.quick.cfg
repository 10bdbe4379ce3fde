SPECIFICATION Spec
CONSTANTS
 K = 3
 Use = {"plain", "full", "deep", "clear"}
INVARIANTS Clear All BaseOk Emit
CHECK_DEADLOCK FALSE
