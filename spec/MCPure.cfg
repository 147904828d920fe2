SPECIFICATION Spec
CONSTANTS
  Mode = "fresh"
  Procs = {p1, p2}
  MaxCalls = 4
  HistLen = 4
INVARIANTS Kept
POSTCONDITION Done
CHECK_DEADLOCK FALSE
