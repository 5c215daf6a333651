CONSTANT Registry = "custom"
SPECIFICATION Spec
INVARIANT AsDefined
INVARIANT Partial
INVARIANT InRange
INVARIANT Monotone
INVARIANT IndexLaw
INVARIANT IndexSlice
INVARIANT AllReversed
INVARIANT Complement
PROPERTY Ends
CHECK_DEADLOCK FALSE
