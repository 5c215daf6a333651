CONSTANT Registry = "custom"
SPECIFICATION Spec
INVARIANT Denotes
INVARIANT Sound
INVARIANT Reads
PROPERTY OnlyGrows
CHECK_DEADLOCK FALSE
