SPECIFICATION Spec
CONSTANTS
  Alpha = {97, 58, 47, 63, 35, 64, 91, 93, 49}
  MaxLen = 4
  Heads <- HeadsB
INVARIANTS Agrees Whole
CHECK_DEADLOCK FALSE
