CONSTANT Registry = "custom"
SPECIFICATION Spec
INVARIANT Injective
INVARIANT Reads
CHECK_DEADLOCK FALSE
