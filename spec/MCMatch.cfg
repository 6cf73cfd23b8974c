SPECIFICATION Spec
CONSTANTS
  MaxPats = 1
  MaxQuads = 3
INVARIANTS Sound Once Complete NothingLost
PROPERTY Stops
CHECK_DEADLOCK FALSE
