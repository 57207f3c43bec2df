SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Unique Value Between NoMask FixedPoint Contracts Linear
CHECK_DEADLOCK FALSE
