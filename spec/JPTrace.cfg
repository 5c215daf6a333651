SPECIFICATION Spec
CONSTANT Registry = "custom"
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
