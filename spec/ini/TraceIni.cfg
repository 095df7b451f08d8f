SPECIFICATION TSpec
CONSTANTS
  MaxLine = 1023
  MaxName = 255
