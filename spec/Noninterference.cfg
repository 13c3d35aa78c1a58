SPECIFICATION Spec
INVARIANTS NoLeak Right Printed
CHECK_DEADLOCK FALSE
