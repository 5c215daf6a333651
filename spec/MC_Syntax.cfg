CONSTANT Registry = "custom"
SPECIFICATION Spec
INVARIANT SameLanguage
INVARIANT LenientMore
CHECK_DEADLOCK FALSE
