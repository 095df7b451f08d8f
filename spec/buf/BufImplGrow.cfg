SPECIFICATION Spec
CONSTANTS
  Caps = {0, 3, 8}
  Base = 0
  Span = 10
  Growing = TRUE
VIEW V
INVARIANT InBounds
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
