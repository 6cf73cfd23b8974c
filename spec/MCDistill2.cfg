SPECIFICATION Spec
INVARIANTS Written Trip Frame Needed Graph
CHECK_DEADLOCK FALSE
CONSTANTS Deep = TRUE
