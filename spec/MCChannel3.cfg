SPECIFICATION Spec
CONSTANTS
  MaxMsgs = 3
  HeaderDamage = FALSE
INVARIANTS Framed Count Clean Conserved
CHECK_DEADLOCK FALSE
