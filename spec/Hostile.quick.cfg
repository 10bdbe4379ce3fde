SPECIFICATION Spec
CONSTANTS MaxEdits = 1
MaxSpoils = 1
Targets = {}
Combine = FALSE
INVARIANTS Tree LackNeedsEdit Emit
CHECK_DEADLOCK FALSE
