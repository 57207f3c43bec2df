SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Layout
CHECK_DEADLOCK FALSE
