SPECIFICATION Spec
INVARIANTS Isolated Absorbed Accounted Keyed LocalReplies
PROPERTY Framed
CHECK_DEADLOCK FALSE
