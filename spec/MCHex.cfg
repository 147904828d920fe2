SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  DumpLen = 6
INVARIANTS ReadBack Agrees EmptyIffEqual DumpOK FarOK
POSTCONDITION Done
CHECK_DEADLOCK FALSE
