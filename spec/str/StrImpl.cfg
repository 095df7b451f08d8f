SPECIFICATION MSpec
CONSTANTS
  Alpha = {97, 98}
  MaxLen = 5
  MaxPat = 3
INVARIANTS TokOk Restored
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
