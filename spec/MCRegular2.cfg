SPECIFICATION Spec
INVARIANTS Agreement Bounded
CHECK_DEADLOCK FALSE
CONSTANTS Size = 6
 Words = 4
