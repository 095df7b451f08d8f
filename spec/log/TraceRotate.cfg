SPECIFICATION TSpec
CONSTANTS
  Limit = 2097152
  Slack = 4096
INVARIANTS Safe Bounded
