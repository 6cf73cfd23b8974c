SPECIFICATION Spec
CONSTANTS
  MaxQuads = 1
  MaxPats = 2
CHECK_DEADLOCK FALSE
