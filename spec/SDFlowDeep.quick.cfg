SPECIFICATION Spec
CONSTANTS MaxSteps = 6
 Lean = FALSE
INVARIANTS Exact Orphans Clear Emit
PROPERTIES NoReturn
CHECK_DEADLOCK FALSE
