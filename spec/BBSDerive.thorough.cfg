SPECIFICATION Spec
CONSTANTS
 K = 3
 Use = {"one", "nested", "twin", "list", "pex", "signed"}
INVARIANTS NothingHidden EditsTell BaseOk Emit
CHECK_DEADLOCK FALSE
