SPECIFICATION Spec
INVARIANT Explained
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
