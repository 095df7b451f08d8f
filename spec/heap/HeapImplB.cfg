SPECIFICATION MSpec
CONSTANTS
  Keys = {1, 2, 3, 4}
  MaxLen = 7
VIEW V
INVARIANTS Refines HeapOrder PopEnabled
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
