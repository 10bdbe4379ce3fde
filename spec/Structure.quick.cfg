SPECIFICATION Spec
CONSTANTS
 K = 2
 Use = {"v1","v2","schema","schema2","full","full2","jwt"}
INVARIANTS Enforced BaseOk Emit
CHECK_DEADLOCK FALSE
