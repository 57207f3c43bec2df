SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Laws
CHECK_DEADLOCK FALSE
