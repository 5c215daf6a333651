CONSTANT Registry = "custom"
SPECIFICATION Spec
INVARIANT AsDefined
INVARIANT SameNodes
INVARIANT Ordered
INVARIANT Idempotent
INVARIANT PrefixFirst
CHECK_DEADLOCK FALSE
