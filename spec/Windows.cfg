SPECIFICATION Spec
INVARIANTS Kept Digits Apart Printed
CHECK_DEADLOCK FALSE
