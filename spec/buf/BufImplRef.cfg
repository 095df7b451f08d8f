SPECIFICATION Spec
CONSTANTS
  Caps = {0, 1, 3, 8, 9, 12}
  Base = 0
  Span = 12
  Growing = FALSE
VIEW V
INVARIANT InBounds
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
