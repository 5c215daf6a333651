SPECIFICATION Spec
INVARIANT Proper
INVARIANT Laws
INVARIANT Native
CHECK_DEADLOCK FALSE
