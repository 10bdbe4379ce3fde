SPECIFICATION Spec
CONSTANTS K = 2
INVARIANTS NoneNever Fresh BaseOk Emit
CHECK_DEADLOCK FALSE
