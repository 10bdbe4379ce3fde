SPECIFICATION Spec
CONSTANTS Parties = 3
 Calls = 0
 Free = TRUE
 Stride = 7
 Offset = 0
INVARIANTS Same Intact Truthful Emit
CHECK_DEADLOCK FALSE
