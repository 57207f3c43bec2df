SPECIFICATION Spec
CONSTANT D = 3
CONSTANT Cap = 26
CONSTANT ICap = 29
CONSTANT Len0 = 12
CONSTANT Half = 0
INVARIANTS Sane
CHECK_DEADLOCK FALSE
