SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANT DiffOK
CHECK_DEADLOCK FALSE
POSTCONDITION Done
