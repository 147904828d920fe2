SPECIFICATION Spec
CONSTANTS
  Subs = {1, 2}
  Depth = 3
  Off = {0, 3}
  Datum = 0
INVARIANTS Refines AnswersGet WalkRight ChainRight NextRight
POSTCONDITION Done
CHECK_DEADLOCK FALSE
