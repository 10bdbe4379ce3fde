SPECIFICATION Spec
CONSTANTS Parties = 2
 Calls = 3
 Free = FALSE
 Stride = 2
 Offset = 0
INVARIANTS Same Intact Truthful Emit
CHECK_DEADLOCK FALSE
