SPECIFICATION Spec
CONSTANTS K = 4
INVARIANTS AuthenticIssuer NoUnsigned BaseOk Emit
CHECK_DEADLOCK FALSE
