SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS OneD Three
CHECK_DEADLOCK FALSE
