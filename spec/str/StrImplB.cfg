SPECIFICATION MSpec
CONSTANTS
  Alpha = {97, 98, 45}
  MaxLen = 4
  MaxPat = 1
INVARIANTS TokOk Restored
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
