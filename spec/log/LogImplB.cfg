SPECIFICATION Spec
CONSTANTS
  Threads = {0, 1}
  MaxOps = 2
  Atomic = TRUE
  Ops = {"d", "e", "D", "E", "0", "C", "k", "g"}
INVARIANTS Linear Exclusive Agree
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
