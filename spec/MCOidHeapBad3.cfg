SPECIFICATION Spec
CONSTANTS
  MaxObjs = 3
  MaxLen = 2
  CatMode = "aliasclone"
INVARIANTS NoShare
PROPERTIES Independent Harmless Born
CHECK_DEADLOCK FALSE
