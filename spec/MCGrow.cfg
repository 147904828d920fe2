SPECIFICATION Spec
CONSTANT N = 2
INVARIANTS PresentOK AddOK RemOK NextOK OrderOK
CHECK_DEADLOCK FALSE
