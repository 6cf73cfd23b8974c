SPECIFICATION Spec
INVARIANTS Told Once
PROPERTY Kept
CHECK_DEADLOCK FALSE
CONSTANTS Steps = 2 Every = 1
