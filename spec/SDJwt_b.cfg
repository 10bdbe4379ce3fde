SPECIFICATION Spec
CONSTANTS Slots = 2
 MaxHidden = 3
 Menu = "small"
INVARIANTS Orphans Exact NoClear Default2 Emit
CHECK_DEADLOCK FALSE
