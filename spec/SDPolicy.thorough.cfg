SPECIFICATION Spec
CONSTANTS K = 3
INVARIANTS NoneNever Fresh BaseOk Emit
CHECK_DEADLOCK FALSE
