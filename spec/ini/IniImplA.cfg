SPECIFICATION Spec
CONSTANTS
  MaxLine = 5
  MaxName = 2
  Alpha = {97, 61, 91, 93, 32, 59, 10}
  MaxLen = 5
  Heads <- PreA
INVARIANTS Agrees Prefix
CHECK_DEADLOCK FALSE
