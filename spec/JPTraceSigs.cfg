SPECIFICATION Spec
CONSTANT Registry = "sigs"
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
