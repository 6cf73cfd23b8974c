SPECIFICATION Enum
CHECK_DEADLOCK FALSE
CONSTANTS Steps = 2 Every = 1
