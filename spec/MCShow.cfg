SPECIFICATION SSpec
CONSTANTS
  Big = FALSE
INVARIANTS FirstLines Tables
CHECK_DEADLOCK FALSE
POSTCONDITION Faithful
