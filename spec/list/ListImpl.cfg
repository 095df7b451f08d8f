SPECIFICATION MSpec
CONSTANTS
  NL = 2
  NE = 4
VIEW V
INVARIANTS OnlyOnce Refines SelfLinked
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
