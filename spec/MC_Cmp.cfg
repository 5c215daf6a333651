CONSTANT Registry = "custom"
SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
