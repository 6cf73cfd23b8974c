SPECIFICATION Spec
CONSTANT W = 64
CHECK_DEADLOCK FALSE
