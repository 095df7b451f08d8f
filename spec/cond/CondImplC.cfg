SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3, 4}
  Waiters = {1, 2}
  Signalers = {3, 4}
  Rounds = 1
INVARIANTS Linear NoLostWakeup Exclusive
PROPERTIES Delivered Progress
CHECK_DEADLOCK FALSE
