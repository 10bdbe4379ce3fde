SPECIFICATION Spec
CONSTANTS MaxSteps = 3
 Lean = FALSE
INVARIANTS Exact Orphans Clear Emit
PROPERTIES NoReturn
CHECK_DEADLOCK FALSE
