SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS OneOutcome
CHECK_DEADLOCK FALSE
