SPECIFICATION Spec
CONSTANTS
  MaxMsgs = 2
  HeaderDamage = TRUE
INVARIANTS Framed
CHECK_DEADLOCK FALSE
