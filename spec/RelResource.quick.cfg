SPECIFICATION Spec
CONSTANTS
 K = 2
 Use = {"direct","mb","json","jwt","cwt","vp","many"}
INVARIANTS Integrity BaseOk Emit
CHECK_DEADLOCK FALSE
