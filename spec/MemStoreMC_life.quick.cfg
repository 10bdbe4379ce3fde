SPECIFICATION Spec
CONSTANTS Depth = 4
 Alphabet = "life"
INVARIANTS QueryExact Emit
PROPERTY ErrorsInert
CHECK_DEADLOCK FALSE
