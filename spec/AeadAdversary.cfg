SPECIFICATION Spec
INVARIANTS Authentic Complete Printed
CHECK_DEADLOCK FALSE
