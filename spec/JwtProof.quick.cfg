SPECIFICATION Spec
CONSTANTS K = 3
INVARIANTS AuthenticIssuer NoUnsigned BaseOk Emit
CHECK_DEADLOCK FALSE
