SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Laws3 Rotation3 Laws2 Rotation2
CHECK_DEADLOCK FALSE
