SPECIFICATION Spec
CONSTANTS
  MaxQuads = 1
  MaxPats = 1
CHECK_DEADLOCK FALSE
