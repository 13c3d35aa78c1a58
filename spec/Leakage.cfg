SPECIFICATION Spec
INVARIANT Views
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
