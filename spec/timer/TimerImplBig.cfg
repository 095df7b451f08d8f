SPECIFICATION MSpec
CONSTANTS
  Tick = 16
  Zero = 0
  Plus <- IPlus
  PlusTick <- IPlusTick
  Leq <- ILeq
  Phase <- IPhase
  Slots = 16
  Timeouts = {0, 16, 33, 255, 272, 700}
  Steps = {7, 16, 31, 256, 1000}
  MaxTimers = 3
  MaxN = 6
VIEW V
INVARIANTS Aligned NoOverdue
CHECK_DEADLOCK FALSE
