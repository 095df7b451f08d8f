SPECIFICATION Spec
CONSTANTS
  Page = 4
  MaxOps = 4
  Offs = {0, 4}
  Lens = {0, 6}
  Vals = {0, 5}
  Ranges = {1, 4}
  Faults = {0, 5}
VIEW View1
INVARIANT Coherent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
