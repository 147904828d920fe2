SPECIFICATION Spec
CONSTANTS
  Big = FALSE
INVARIANTS RoundTrip SizeRight Refused Accepted Strict
POSTCONDITION Done
CHECK_DEADLOCK FALSE
