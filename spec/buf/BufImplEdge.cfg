SPECIFICATION Spec
CONSTANTS
  Caps = {4096, 5000}
  Base = 4084
  Span = 12
  Growing = TRUE
VIEW V
INVARIANT InBounds
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
