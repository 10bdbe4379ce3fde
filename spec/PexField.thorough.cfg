SPECIFICATION Spec
CONSTANTS
 K = 3
 Use = {"string", "jwt", "sd", "list", "allof", "absent", "alt"}
INVARIANTS TypeBinds AbsentNeedsOptional BaseOk Emit
CHECK_DEADLOCK FALSE
