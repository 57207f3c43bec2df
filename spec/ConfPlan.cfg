SPECIFICATION Spec
CONSTANT Salt = 1
CONSTANT Valid = 25
CHECK_DEADLOCK FALSE
