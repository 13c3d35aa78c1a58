CONSTANTS
  P25519 <- ToyP
  EdD <- ToyD
  L25519 <- ToyL
  SqrtM1 <- ToyI
  BaseP <- ToyB
  HashModL <- ToyChallenge
SPECIFICATION Spec
INVARIANTS Verdict Honest
CHECK_DEADLOCK FALSE
