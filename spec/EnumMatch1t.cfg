SPECIFICATION Spec
CONSTANTS
  MaxQuads = 2
  MaxPats = 1
CHECK_DEADLOCK FALSE
