SPECIFICATION TSpec
CONSTANTS
  SHUT <- Shut
  FATAL <- Fat
  IGN <- Ignored
