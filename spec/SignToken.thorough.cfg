SPECIFICATION Spec
CONSTANTS
  K = 5
  Use = {"jwt", "sd", "cwt", "jwtvp", "cwtvp", "keytype", "p521"}
INVARIANTS NeverForged RefusedIsNotMade Emit
CHECK_DEADLOCK FALSE
