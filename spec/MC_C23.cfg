SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS RoundTrip Foreign
CHECK_DEADLOCK FALSE
