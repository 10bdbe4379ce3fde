SPECIFICATION Spec
CONSTANTS MaxAttacks = 3
 Templates = {1, 3, 4}
INVARIANTS NoForged AllUsed ClosedOmit NoTamper Emit
CHECK_DEADLOCK FALSE
