SPECIFICATION Spec
CONSTANTS
  Big = TRUE
INVARIANTS RoundTrip SizeRight Refused Accepted Strict
POSTCONDITION Done
CHECK_DEADLOCK FALSE
