CONSTANT Registry = "custom"
SPECIFICATION Spec
INVARIANT Languages
INVARIANT MatchSearch
INVARIANT Grouped
CHECK_DEADLOCK FALSE
