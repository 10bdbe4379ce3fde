SPECIFICATION Spec
CONSTANTS
 K = 3
 Use = {"ld", "di", "ldjwt", "dijwt", "jwt", "jwt2", "min", "sd", "sd5", "cwt", "cwt2"}
INVARIANTS AuthenticIssuer BaseOk Emit
CHECK_DEADLOCK FALSE
