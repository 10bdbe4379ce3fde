SPECIFICATION Spec
CONSTANTS
 K = 2
 Use = {"ld", "jwt", "two", "typed", "cwt", "each"}
INVARIANTS NothingForNothing AllAnswersGood BaseOk Emit
CHECK_DEADLOCK FALSE
