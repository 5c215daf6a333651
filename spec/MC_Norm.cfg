CONSTANT Registry = "custom"
SPECIFICATION Spec
INVARIANT Texts
INVARIANT Pointed
INVARIANT SelectsIt
INVARIANT Injective
CHECK_DEADLOCK FALSE
