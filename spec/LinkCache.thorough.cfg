SPECIFICATION Spec
CONSTANTS
 K = 3
 Kinds = {"res1","res2","schema","fresh","expired"}
INVARIANTS Fresh NoMemory Emit
CHECK_DEADLOCK FALSE
