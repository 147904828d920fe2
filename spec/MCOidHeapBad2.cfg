SPECIFICATION Spec
CONSTANTS
  MaxObjs = 3
  MaxLen = 2
  CatMode = "alias0"
INVARIANTS NoShare
PROPERTIES Independent Harmless Born
CHECK_DEADLOCK FALSE
