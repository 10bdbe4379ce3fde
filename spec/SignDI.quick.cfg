SPECIFICATION Spec
CONSTANTS
  K = 3
  Use = {"p256", "p384", "ed", "edmulti", "vp", "vped"}
INVARIANTS NeverForged Emit
CHECK_DEADLOCK FALSE
