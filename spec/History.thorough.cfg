SPECIFICATION Spec
CONSTANTS Bases = "all"
 Steps = 3
 Family = 4
 Brief = TRUE
INVARIANTS SignedIsProven ModifiedIsNot Emit
PROPERTY Others
CHECK_DEADLOCK FALSE
