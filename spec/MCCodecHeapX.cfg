SPECIFICATION Spec
CONSTANTS
  Mode = "fresh"
  MaxObjs = 4
  MaxSteps = 7
  HistLen = 5
INVARIANTS Pure NoShare
POSTCONDITION Done
CHECK_DEADLOCK FALSE
