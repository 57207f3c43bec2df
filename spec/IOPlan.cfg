SPECIFICATION Spec
CONSTANT Len0 = 24
CONSTANT Bad = 10
CHECK_DEADLOCK FALSE
