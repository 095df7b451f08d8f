SPECIFICATION TSpec
CONSTANTS
  NFd = 8
  MaxEvents = 1024
INVARIANT NoStarvation
