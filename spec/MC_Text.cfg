CONSTANT Registry = "custom"
SPECIFICATION Spec
INVARIANT Reads
INVARIANT Displayed
CHECK_DEADLOCK FALSE
