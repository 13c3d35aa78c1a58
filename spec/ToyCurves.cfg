CONSTANTS
  P25519 <- ToyP
  EdD <- ToyD
  L25519 <- ToyL
  SqrtM1 <- ToyI
  BaseP <- ToyB
SPECIFICATION Spec
INVARIANT Holds
CHECK_DEADLOCK FALSE
