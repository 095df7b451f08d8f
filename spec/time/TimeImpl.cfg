SPECIFICATION Spec
CONSTANTS
  MaxMs = 25
  MaxInt = 3
  Span = 4
INVARIANTS Exact Failed Whole
PROPERTIES Ends
CHECK_DEADLOCK FALSE
