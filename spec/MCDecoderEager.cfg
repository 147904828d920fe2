SPECIFICATION DSpec
CONSTANTS
  Big = FALSE
  Eager = TRUE
INVARIANTS Agrees Bounded
CHECK_DEADLOCK FALSE
