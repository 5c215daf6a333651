CONSTANT Registry = "shadow"
SPECIFICATION Spec
INVARIANT Judged
INVARIANT Reads
INVARIANT OneType
CHECK_DEADLOCK FALSE
