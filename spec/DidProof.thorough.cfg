SPECIFICATION Spec
CONSTANTS
 K = 3
 Use = {"ed18v", "ed18j", "ed20v", "jwsEd", "jwsP256", "k256v", "k256j", "ldset", "eddsa", "ecdsa", "ecdsa384", "diset"}
INVARIANTS Authentic EditsTell BaseOk Emit
CHECK_DEADLOCK FALSE
