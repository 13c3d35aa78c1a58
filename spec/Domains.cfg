SPECIFICATION Spec
INVARIANTS Refuses Refused Printed
CHECK_DEADLOCK FALSE
