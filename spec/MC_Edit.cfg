CONSTANT Registry = "custom"
SPECIFICATION Spec
INVARIANT Valid
INVARIANT SameLanguage
INVARIANT LenientMore
VIEW View
CHECK_DEADLOCK FALSE
