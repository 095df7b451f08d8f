SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Waiters = {1, 2}
  Signalers = {3}
  Rounds = 2
INVARIANTS Linear NoLostWakeup Exclusive
PROPERTIES Delivered Progress
CHECK_DEADLOCK FALSE
