SPECIFICATION Spec
CONSTANTS
  K = 2
  Use = {"ed18", "ed20", "k256", "jws", "p384der", "bbs", "vp", "derived"}
INVARIANTS NeverForged Emit
CHECK_DEADLOCK FALSE
