SPECIFICATION Spec
CONSTANTS
  SHUT = {2, 15}
  FATAL = {6, 11}
  IGN = {13}
  MaxSig = 4
  Masked = TRUE
  SfdKinds = {0, 1, 2}
INVARIANTS Right AtMain
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
