SPECIFICATION Spec
CONSTANTS
 K = 3
 Use = {"plain", "full", "jwt", "jwtmin", "jwt2", "jwtmin2", "ld", "di", "sd", "sd5", "unsecmin", "cwt", "cwt2"}
INVARIANTS NothingLost OnlyDatesRounded BaseOk Emit
CHECK_DEADLOCK FALSE
