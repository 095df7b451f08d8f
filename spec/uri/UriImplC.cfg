SPECIFICATION Spec
CONSTANTS
  Alpha = {53, 54, 48, 47, 58, 97, 43, 32}
  MaxLen = 4
  Heads <- HeadsC
INVARIANTS Agrees Whole
CHECK_DEADLOCK FALSE
