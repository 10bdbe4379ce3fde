SPECIFICATION Spec
CONSTANT Debug = FALSE
INVARIANTS Progress
CHECK_DEADLOCK FALSE
