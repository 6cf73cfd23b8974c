SPECIFICATION Enum
CHECK_DEADLOCK FALSE
CONSTANTS Steps = 3 Every = 3
