SPECIFICATION MSpec
CONSTANTS
  Keys = {1, 2, 3}
  MaxLen = 9
VIEW V
INVARIANTS Refines HeapOrder PopEnabled
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
