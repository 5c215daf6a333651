CONSTANT Registry = "custom"
SPECIFICATION SpecNest
INVARIANT DenotesEnd
INVARIANT Sound
INVARIANT Reads
INVARIANT Reported
CHECK_DEADLOCK FALSE
