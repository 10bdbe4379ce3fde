SPECIFICATION Spec
CONSTANTS
 K = 3
 Use = {"clear", "revoked", "suspended", "second", "two"}
INVARIANTS SetIsNeverClear OtherIssuerNeverClear SecondCounts BaseOk Emit
CHECK_DEADLOCK FALSE
