SPECIFICATION Spec
CONSTANTS
 Groupings = {"AABB", "AXBB", "BXXA", "A-AB", "BAAA"}
 Sats = {{}, {1}, {2}, {3}, {4}, {1, 2}, {1, 3}, {1, 4}, {2, 3}, {2, 4}, {3, 4}, {1, 2, 3}, {1, 2, 4}, {1, 3, 4}, {2, 3, 4}, {1, 2, 3, 4}}
 Wallets = {"each"}
 Forms = {"none", "leaf", "two", "nested", "mixed"}
INVARIANTS MonotoneOk NothingFromNothing NoneMeansAll Emit
CHECK_DEADLOCK FALSE
