CONSTANT Registry = "custom"
SPECIFICATION Spec
INVARIANT Closed
INVARIANT Deduped
INVARIANT Reads
CHECK_DEADLOCK FALSE
