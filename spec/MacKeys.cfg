SPECIFICATION Spec
INVARIANTS Rfc2104 Lengths Printed
CHECK_DEADLOCK FALSE
