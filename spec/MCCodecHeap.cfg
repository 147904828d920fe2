SPECIFICATION Spec
CONSTANTS
  Mode = "fresh"
  MaxObjs = 4
  MaxSteps = 6
  HistLen = 4
INVARIANTS Pure NoShare
POSTCONDITION Done
CHECK_DEADLOCK FALSE
