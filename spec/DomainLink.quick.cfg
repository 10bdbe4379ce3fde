SPECIFICATION Spec
CONSTANTS
 K = 2
 Use = {"jwt", "ld", "es", "bare"}
INVARIANTS Linked BaseOk Emit
CHECK_DEADLOCK FALSE
