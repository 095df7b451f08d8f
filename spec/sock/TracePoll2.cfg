SPECIFICATION TSpec
CONSTANTS
  NFd = 8
  MaxEvents = 2
INVARIANT NoStarvation
