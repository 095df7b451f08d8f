SPECIFICATION Spec
CONSTANTS
  Page = 4
  MaxOps = 2
  Offs = {0, 2, 4}
  Lens = {0, 3, 4, 9}
  Vals = {0, 4, 7}
  Ranges = {0, 1, 3, 4, 5, 7}
  Faults = {0, 1, 2, 3, 4, 5}
VIEW View1
INVARIANT Coherent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
