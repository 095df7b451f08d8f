SPECIFICATION TSpec
CONSTANTS
  Tick = 16
  Zero <- WZero
  Plus <- WPlus
  PlusTick <- WPlusTick
  Leq <- WLeq
  Phase <- WPhase
INVARIANT Late
