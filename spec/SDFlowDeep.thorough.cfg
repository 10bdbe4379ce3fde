SPECIFICATION Spec
CONSTANTS MaxSteps = 8
 Lean = FALSE
INVARIANTS Exact Orphans Clear Emit
PROPERTIES NoReturn
CHECK_DEADLOCK FALSE
