SPECIFICATION Spec
CONSTANTS MaxAttacks = 2
 Templates = {1, 2, 3, 4, 5, 6}
INVARIANTS NoForged AllUsed ClosedOmit NoTamper Emit
CHECK_DEADLOCK FALSE
