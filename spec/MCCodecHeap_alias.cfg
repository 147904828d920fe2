SPECIFICATION Spec
CONSTANTS
  Mode = "alias"
  MaxObjs = 4
  MaxSteps = 6
  HistLen = 1
INVARIANTS Pure 

CHECK_DEADLOCK FALSE
