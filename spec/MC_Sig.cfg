CONSTANT Registry = "sigs"
SPECIFICATION Spec
INVARIANT Emit
INVARIANT Typed
INVARIANT Reads
INVARIANT Selects
CHECK_DEADLOCK FALSE
