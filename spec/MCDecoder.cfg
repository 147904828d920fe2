SPECIFICATION DSpec
CONSTANTS
  Big = FALSE
  Eager = FALSE
INVARIANTS Agrees Bounded
PROPERTIES Ends Progress
POSTCONDITION DDone
CHECK_DEADLOCK FALSE
