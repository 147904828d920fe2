SPECIFICATION Spec
CONSTANTS
  MaxObjs = 3
  MaxLen = 2
  CatMode = "inplace"
INVARIANTS NoShare
PROPERTIES Independent Harmless Born
CHECK_DEADLOCK FALSE
