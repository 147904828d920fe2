SPECIFICATION Spec
CONSTANTS
  Subs = {1, 2}
  Depth = 2
  Off = {0}
  Datum = 1
INVARIANTS Refines AnswersGet WalkRight ChainRight NextRight
POSTCONDITION Done
CHECK_DEADLOCK FALSE
