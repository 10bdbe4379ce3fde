SPECIFICATION Spec
CONSTANTS Depth = 3
 Alphabet = "data"
INVARIANTS QueryExact Emit
PROPERTY ErrorsInert
CHECK_DEADLOCK FALSE
