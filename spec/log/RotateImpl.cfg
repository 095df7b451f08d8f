SPECIFICATION Spec
CONSTANTS
  Limit = 20
  Slack = 3
  Sizes = {6, 13, 27}
  MaxOps = 5
INVARIANTS Safe Bounded Counted
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
