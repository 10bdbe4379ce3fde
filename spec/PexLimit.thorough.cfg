SPECIFICATION Spec
CONSTANTS
 K = 3
 Use = {"flat", "struct", "rec", "two", "reco", "jwt", "ld", "pair", "open"}
INVARIANTS NothingInvented BaseOk Emit
CHECK_DEADLOCK FALSE
