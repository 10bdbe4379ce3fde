SPECIFICATION Spec
CONSTANTS
 K = 2
 Use = {"one", "nested", "twin", "list", "pex", "signed"}
INVARIANTS NothingHidden EditsTell BaseOk Emit
CHECK_DEADLOCK FALSE
