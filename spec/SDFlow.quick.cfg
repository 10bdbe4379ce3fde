SPECIFICATION Spec
CONSTANTS MaxSteps = 3
 Lean = TRUE
INVARIANTS Exact Orphans Clear Emit
PROPERTIES NoReturn
CHECK_DEADLOCK FALSE
