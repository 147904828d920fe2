SPECIFICATION Spec
CONSTANTS
  Mode = "order"
  MaxLen = 0
  Wide = TRUE
INVARIANTS OrderOK ParseOK InverseOK
PROPERTIES Absorbing
POSTCONDITION Done
CHECK_DEADLOCK FALSE
