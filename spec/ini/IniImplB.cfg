SPECIFICATION Spec
CONSTANTS
  MaxLine = 5
  MaxName = 2
  Alpha = {97, 58, 35, 9, 32, 10, 13}
  MaxLen = 5
  Heads <- PreB
INVARIANTS Agrees Prefix
CHECK_DEADLOCK FALSE
