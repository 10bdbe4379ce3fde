SPECIFICATION Spec
CONSTANTS Bases = "all"
 Steps = 2
 Family = 3
 Brief = FALSE
INVARIANTS SignedIsProven ModifiedIsNot Emit
PROPERTY Others
CHECK_DEADLOCK FALSE
