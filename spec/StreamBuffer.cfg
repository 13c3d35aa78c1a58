SPECIFICATION Spec
INVARIANTS Position Successive
CHECK_DEADLOCK FALSE
