SPECIFICATION Spec
CONSTANTS
  MaxPats = 2
  MaxQuads = 2
INVARIANTS Sound Once Complete NothingLost
CHECK_DEADLOCK FALSE
