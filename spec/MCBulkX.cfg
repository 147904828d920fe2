SPECIFICATION Spec
CONSTANTS
  Subs = {1, 2}
  Depth = 3
  MaxK = 9
  Ends = {0, 1, 2, 3}
INVARIANTS Refines KthRight Chained PruneRight
POSTCONDITION Done
CHECK_DEADLOCK FALSE
