SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS NoImages Symmetric Linear Decreasing Scales
CHECK_DEADLOCK FALSE
