SPECIFICATION Spec
CONSTANTS Depth = 5
 Alphabet = "life"
INVARIANTS QueryExact Emit
PROPERTY ErrorsInert
CHECK_DEADLOCK FALSE
