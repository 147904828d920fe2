SPECIFICATION Spec
CONSTANTS
  Mode = "memo"
  Procs = {p1, p2}
  MaxCalls = 4
  HistLen = 4
INVARIANTS Kept
CHECK_DEADLOCK FALSE
