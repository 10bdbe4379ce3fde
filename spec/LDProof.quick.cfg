SPECIFICATION Spec
CONSTANTS
 K = 2
 Use = {"ed18v", "ed18j", "ed20v", "jwsEd", "jwsP256", "jwsP384", "jwsP521", "jwsK256", "jwsRSA", "jwsEdv", "k256v", "k256j", "bbs", "bbsderived"}
INVARIANTS AuthenticIssuer AtLeastOneProof BaseOk Emit
CHECK_DEADLOCK FALSE
