SPECIFICATION Spec
CONSTANTS
  Poly8 = 171
  Short = 8
  Long = 16
  Lens <- AllLens
INVARIANTS SwRight HwRight Chains
CHECK_DEADLOCK FALSE
