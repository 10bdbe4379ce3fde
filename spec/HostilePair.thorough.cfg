SPECIFICATION Spec
CONSTANTS MaxEdits = 3
MaxSpoils = 2
Targets = {}
Combine = TRUE
INVARIANTS Tree LackNeedsEdit Emit
CHECK_DEADLOCK FALSE
