SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Laws NoFlux
CHECK_DEADLOCK FALSE
