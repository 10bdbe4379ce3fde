SPECIFICATION Spec
CONSTANTS
 K = 4
 Use = {"both", "claims", "members", "v2", "sd", "sd5"}
INVARIANTS OneIssuer BaseOk Emit
CHECK_DEADLOCK FALSE
