SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Accumulates RingKept
CHECK_DEADLOCK FALSE
