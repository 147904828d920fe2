SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Calls = 2
  Universe <- Three
  Ops = {"add", "rem", "get", "next", "walk", "clear"}
  AddLock = "W"
  RemLock = "RW"
  ReadLock = "R"
INVARIANTS Atomic
