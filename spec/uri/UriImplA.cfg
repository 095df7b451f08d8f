SPECIFICATION Spec
CONSTANTS
  Alpha = {97, 58, 47, 63, 35, 64}
  MaxLen = 5
  Heads <- HeadsA
INVARIANTS Agrees Whole
CHECK_DEADLOCK FALSE
