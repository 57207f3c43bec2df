SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Laws Modes
CHECK_DEADLOCK FALSE
