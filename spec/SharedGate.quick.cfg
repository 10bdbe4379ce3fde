SPECIFICATION Spec
CONSTANTS Parties = 2
 Calls = 2
 Free = FALSE
 Stride = 1
 Offset = 0
INVARIANTS Same Intact Truthful Emit
CHECK_DEADLOCK FALSE
