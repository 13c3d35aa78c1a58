SPECIFICATION Spec
INVARIANTS Refines Pending ByLength
CHECK_DEADLOCK FALSE
