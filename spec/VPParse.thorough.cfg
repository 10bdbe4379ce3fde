SPECIFICATION Spec
CONSTANTS
 K = 3
 Use = {"jwt", "jwt2", "min", "ld", "di", "ldjwt", "cwt", "cwt2"}
INVARIANTS HolderProven CredentialsProven Defined BaseOk Emit
CHECK_DEADLOCK FALSE
