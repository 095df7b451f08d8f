SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2, 3}
  Checks = {"data", "res"}
  MaxOps = 5
  Fams = {"4"}
  Kinds = {"pipe"}
  Xfers = {""}
VIEW View1
INVARIANTS Prefix Linked Holds Clean
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
