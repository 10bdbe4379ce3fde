SPECIFICATION Spec
CONSTANTS Depth = 4
 Alphabet = "data"
INVARIANTS QueryExact Emit
PROPERTY ErrorsInert
CHECK_DEADLOCK FALSE
