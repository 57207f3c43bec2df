SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Laws Table
CHECK_DEADLOCK FALSE
