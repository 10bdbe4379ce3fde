SPECIFICATION Spec
CONSTANTS
 K = 3
 Use = {"ed", "p256", "p384", "rsa", "rs256", "key", "keyP"}
INVARIANTS AuthenticIssuer NoUnsigned BaseOk Emit
CHECK_DEADLOCK FALSE
