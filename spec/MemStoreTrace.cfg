SPECIFICATION Spec
CONSTANT Debug = FALSE
INVARIANTS TypeOK Progress
CHECK_DEADLOCK FALSE
