SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Laws
CHECK_DEADLOCK FALSE
