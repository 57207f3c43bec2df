SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Refused
CHECK_DEADLOCK FALSE
