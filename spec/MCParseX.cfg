SPECIFICATION Spec
CONSTANTS
  Mode = "parse"
  MaxLen = 5
  Wide = TRUE
INVARIANTS OrderOK ParseOK InverseOK
PROPERTIES Absorbing
POSTCONDITION Done
CHECK_DEADLOCK FALSE
