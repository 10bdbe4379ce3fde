SPECIFICATION Spec
CONSTANTS
 K = 3
 Use = {"two", "mix", "one", "typed", "array", "pick"}
INVARIANTS FormatsBind FromNothing BaseOk Emit
CHECK_DEADLOCK FALSE
