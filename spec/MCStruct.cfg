SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANT DiffOK
CHECK_DEADLOCK FALSE
POSTCONDITION Done
