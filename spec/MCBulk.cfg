SPECIFICATION Spec
CONSTANTS
  Subs = {1, 2}
  Depth = 3
  MaxK = 3
  Ends = {0, 3}
INVARIANTS Refines KthRight Chained PruneRight
POSTCONDITION Done
CHECK_DEADLOCK FALSE
