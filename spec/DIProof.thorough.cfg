SPECIFICATION Spec
CONSTANTS
 K = 3
 Use = {"ecdsa-2019/256", "ecdsa-2019/384", "ecdsa-rdfc-2019/256", "ecdsa-rdfc-2019/384", "eddsa-rdfc-2022", "eddsa-2022"}
INVARIANTS KeyMatches OnlyIssuer AtLeastOneProof BaseOk Emit
CHECK_DEADLOCK FALSE
