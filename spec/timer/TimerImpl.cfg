SPECIFICATION MSpec
CONSTANTS
  Tick = 16
  Zero = 0
  Plus <- IPlus
  PlusTick <- IPlusTick
  Leq <- ILeq
  Phase <- IPhase
  Slots = 16
  Timeouts = {0, 15, 16, 17, 240, 256, 300}
  Steps = {1, 15, 16, 31, 255, 257, 600}
  MaxTimers = 3
  MaxN = 4
VIEW V
INVARIANTS Aligned NoOverdue
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
