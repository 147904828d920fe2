SPECIFICATION Spec
CONSTANTS
  StrSizes = {200, 201, 202, 203, 256, 300}
  ListSizes = {7, 30}
  HurtVals = {0, 1, 255, 256}
INVARIANTS Described Only SizeFits SameDecoding
CHECK_DEADLOCK FALSE
