SPECIFICATION Spec
CONSTANTS
  MaxMsgs = 2
  HeaderDamage = FALSE
INVARIANTS Framed Count Clean Conserved
PROPERTIES AllTaken
POSTCONDITION Done
CHECK_DEADLOCK FALSE
