SPECIFICATION Spec
CONSTANT Kind = "vbf"
CONSTANT Len0 = 14
CHECK_DEADLOCK FALSE
