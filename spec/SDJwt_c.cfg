SPECIFICATION Spec
CONSTANTS Slots = 2
 MaxHidden = 5
 Menu = "full"
INVARIANTS Orphans Exact NoClear Default2 Emit
CHECK_DEADLOCK FALSE
