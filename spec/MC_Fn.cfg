CONSTANT Registry = "custom"
SPECIFICATION Spec
INVARIANT Computes
INVARIANT ValueCount
INVARIANT Typed
CHECK_DEADLOCK FALSE
