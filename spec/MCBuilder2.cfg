SPECIFICATION Spec
INVARIANTS Told Once
PROPERTY Kept
CHECK_DEADLOCK FALSE
CONSTANTS Steps = 3 Every = 1
