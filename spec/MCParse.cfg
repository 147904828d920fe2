SPECIFICATION Spec
CONSTANTS
  Mode = "parse"
  MaxLen = 5
  Wide = FALSE
INVARIANTS OrderOK ParseOK InverseOK
PROPERTIES Absorbing
POSTCONDITION Done
CHECK_DEADLOCK FALSE
