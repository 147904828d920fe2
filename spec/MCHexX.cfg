SPECIFICATION Spec
CONSTANTS
  MaxLen = 8
  DumpLen = 7
INVARIANTS ReadBack Agrees EmptyIffEqual DumpOK FarOK
POSTCONDITION Done
CHECK_DEADLOCK FALSE
