SPECIFICATION Spec
CONSTANTS
 K = 3
 Use = {"jwt", "ld", "es", "bare"}
INVARIANTS Linked BaseOk Emit
CHECK_DEADLOCK FALSE
