SPECIFICATION Spec
CONSTANTS
  Threads = {0, 1}
  MaxOps = 2
  Atomic = FALSE
  Ops = {"i", "e", "E", "0", "C", "g"}
INVARIANTS Linear Exclusive Agree
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
