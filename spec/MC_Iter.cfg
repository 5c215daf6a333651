SPECIFICATION Spec
INVARIANT Window
INVARIANT Once
INVARIANT NoSkips
PROPERTY Shrinks
PROPERTY Fused
CHECK_DEADLOCK FALSE
