SPECIFICATION Spec
CONSTANTS Bases = "all"
 Steps = 8
 Family = 5
 Brief = TRUE
INVARIANTS SignedIsProven ModifiedIsNot Emit
PROPERTY Others
CHECK_DEADLOCK FALSE
