SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Laws Adjoint Uniform HalfSteps
PROPERTY Frame
CHECK_DEADLOCK FALSE
