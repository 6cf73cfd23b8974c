SPECIFICATION Spec
INVARIANTS Agreement Bounded
CHECK_DEADLOCK FALSE
CONSTANTS Size = 5
 Words = 4
