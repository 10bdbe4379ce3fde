SPECIFICATION Spec
CONSTANTS Slots = 1
 MaxHidden = 14
 Menu = "long"
INVARIANTS Orphans Exact NoClear Default2 Emit
CHECK_DEADLOCK FALSE
