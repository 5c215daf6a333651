SPECIFICATION Spec
CONSTANT Registry = "shadow"
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
