SPECIFICATION Spec
CONSTANTS
  Poly8 = 171
  Short = 8
  Long = 16
  Lens = {0, 1, 8, 15, 24, 31, 39, 55, 63, 79}
INVARIANTS SwRight HwRight Chains
CHECK_DEADLOCK FALSE
