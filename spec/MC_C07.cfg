SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Range Saturates Ends Half Complement Slope Quarter
PROPERTY Monotone
CHECK_DEADLOCK FALSE
