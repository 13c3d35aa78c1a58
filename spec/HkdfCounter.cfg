SPECIFICATION Spec
INVARIANTS Rfc5869 Refused Prefix Printed
CHECK_DEADLOCK FALSE
