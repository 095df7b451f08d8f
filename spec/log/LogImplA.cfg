SPECIFICATION Spec
CONSTANTS
  Threads = {0}
  MaxOps = 4
  Atomic = TRUE
  Ops = {"d", "i", "e", "D", "O", "X", "0", "1", "c", "C", "k", "f", "g", "h"}
INVARIANTS Linear Exclusive Agree
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
