SPECIFICATION Spec
CONSTANTS
  Mode = "reuse"
  MaxObjs = 4
  MaxSteps = 6
  HistLen = 1
INVARIANTS Pure 

CHECK_DEADLOCK FALSE
