SPECIFICATION Spec
VIEW TagView
INVARIANTS Exact Symmetric Printed
CHECK_DEADLOCK FALSE
