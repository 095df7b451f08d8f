SPECIFICATION MSpec
CONSTANT MaxCap = 32
VIEW V
INVARIANTS Refines NoStuck
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
