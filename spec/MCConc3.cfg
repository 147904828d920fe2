SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Calls = 2
  Universe <- Two
  Ops = {"add", "rem", "walk"}
  AddLock = "W"
  RemLock = "W"
  ReadLock = "R"
INVARIANTS Exclusion Atomic SameTree ClosedAlways
