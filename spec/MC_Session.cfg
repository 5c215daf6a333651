CONSTANT Registry = "custom"
SPECIFICATION Spec
INVARIANT Replays
INVARIANT Function
CHECK_DEADLOCK FALSE
