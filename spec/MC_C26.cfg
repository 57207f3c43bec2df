SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Agrees Unchanged Complete Single
CHECK_DEADLOCK FALSE
